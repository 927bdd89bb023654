------------------------------ MODULE MCInstall ------------------------------
(***************************************************************************)
(* A whole install run as pkgr carries it out, in every small world, with    *)
(* every outcome and order of R calls: backups aside, then the repository     *)
(* packages by several workers, then the tarballs, then rolling back.  Every   *)
(* call it makes and every library it leaves must be allowed by Install (so      *)
(* that the conditions recorded runs are checked against can be met, for all        *)
(* properties together), and runs end.                                               *)
(***************************************************************************)
EXTENDS Install
CONSTANTS Names, Cmds, Threads
VARIABLES phase, fine, ready, noted
mvars == <<vars, phase, fine, ready, noted>>

SeqOf(S) == LET RECURSIVE go(_) go(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o go(T \ {x}) IN go(S)
None == [op |-> "none", vn |-> <<0>>, str |-> ""]
Rec(p, imp) == [pkg |-> p, ver |-> "2", vn |-> <<2>>, dep |-> <<>>, imp |-> SeqOf(imp), lnk |-> <<>>, sug |-> <<>>, rc |-> None, path |-> ""]
World(imp, have) == [rver |-> <<4, 1, 2>>, repos |-> <<[name |-> "R1", oid |-> "O1", boid |-> "O1", rtype |-> "", dtype |-> "", src |-> LET h == SeqOf(have) IN [i \in DOMAIN h |-> Rec(h[i], imp[h[i]])], bin |-> <<>>]>>]
Tar(imp) == [pkg |-> "t", ver |-> "1", vn |-> <<1>>, dep |-> <<>>, imp |-> SeqOf(imp), lnk |-> <<>>, sug |-> <<>>, cid |-> "", bad |-> FALSE]
Conf(up, nr, st, th, tr) == [packages |-> SeqOf(Names), ignore |-> <<>>, suggests |-> FALSE, norec |-> FALSE, cust |-> <<>>, tarballs |-> tr, descs |-> <<>>,
                             update |-> up, norollback |-> nr, strict |-> st, threads |-> th]
\* the library to start from: older, the same version, and a package of nobody's
Lib(f) == [p \in {q \in DOMAIN f : f[q] # "none"} |-> IF f[p] = "older" THEN [ver |-> "1", vn |-> <<1>>, marker |-> "old/" \o p] ELSE [ver |-> "2", vn |-> <<2>>, marker |-> "own/" \o p]]
MCInit ==
  \E imp \in [Names -> SUBSET Names], missing \in {{}} \cup {{CHOOSE p \in Names : TRUE}} :
  \E f \in [Names \cup {"t", "z"} -> {"none", "older", "same"}], up, nr, st \in BOOLEAN, th \in Threads, tr \in {"no", "bare", "needing", "bad"}, cmd \in Cmds, ex \in BOOLEAN :
    /\ (missing # {} \/ cmd # "install" => th = 1 /\ \A p \in Names : imp[p] = {})
    /\ f["z"] = (IF ex THEN "older" ELSE "none") /\ f["t"] # "same" /\ (tr = "no" => f["t"] = "none")
    /\ (~ex => \A p \in DOMAIN f : f[p] = "none")
    /\ (st => ~ex /\ up /\ ~nr)
    /\ r = NewRun(cmd, World(imp, Names \ missing),
                  Conf(up, nr, st, th, IF tr = "no" THEN <<>> ELSE <<[Tar(IF tr = "needing" THEN {CHOOSE p \in Names : TRUE} ELSE {}) EXCEPT !.bad = tr = "bad"]>>),
                  Lib(f), Lib(f), ex, 8)
    /\ lib = Lib(f)
    /\ running = {} /\ built = {} /\ inst = {} /\ failed = {} /\ begun = {} /\ aborted = FALSE
    /\ phase = "begin" /\ fine = TRUE /\ ready = {} /\ noted = {}

Keep == UNCHANGED <<r, aborted>>
\* preparing, or declining
Prepare ==
  /\ phase = "begin"
  /\ IF r.active THEN phase' = "repo" /\ lib' = [p \in DOMAIN lib \ (r.staged \cup r.tars) |-> lib[p]]
     ELSE phase' = "over" /\ UNCHANGED lib
  /\ ready' = {p \in r.plan.plan : r.plan.needs[p] = {}}
  /\ UNCHANGED <<running, built, inst, failed, begun, fine, noted>> /\ Keep
Busy == {q.p : q \in running} \cup {p \in built : p \notin inst \cup failed}
X(p) == [ver |-> "2", marker |-> Marker(r.plan.sel[p])]
Stamp(p) == [ver |-> "2", vn |-> <<2>>, marker |-> X(p).marker]
Call(k, p, x, scratch) ==
  /\ fine' = CanStart(k, p, x, lib, scratch)
  /\ running' = running \cup {Active(k, p)} /\ begun' = begun \cup {Active(k, p)}
\* a worker takes a package that is ready; one that is there passes by
Take(p) ==
  /\ phase = "repo" /\ p \in ready \ noted /\ p \in TodoRepo /\ Active("B", p) \notin begun
  /\ Cardinality(Busy) < r.workers
  /\ Call("B", p, X(p), TRUE) /\ UNCHANGED <<lib, built, inst, failed, phase, ready, noted>> /\ Keep
Second(p) ==
  /\ phase = "repo" /\ p \in built /\ Active("I", p) \notin begun
  /\ Call("I", p, X(p), FALSE) /\ UNCHANGED <<lib, built, inst, failed, phase, ready, noted>> /\ Keep
End(q, ok) ==
  /\ q \in running
  /\ AfterEnd(q.k, q.p, ok, <<>>)
  /\ lib' = IF ~ok \/ q.k = "B" THEN lib
            ELSE [p \in DOMAIN lib \cup {q.p} |-> IF p # q.p THEN lib[p] ELSE IF q.k = "T" THEN [ver |-> "1", vn |-> <<1>>, marker |-> TarMarker(TarOf(r.c, p))] ELSE Stamp(p)]
  /\ UNCHANGED <<begun, phase, fine, ready, noted>> /\ Keep
\* results are taken note of
Note(p) ==
  /\ phase = "repo" /\ p \notin noted /\ (p \in inst \cup failed \/ (p \in ready \ TodoRepo))
  /\ noted' = noted \cup {p}
  /\ ready' = IF noted' \cap failed # {} THEN ready
              ELSE ready \cup {x \in r.plan.plan : r.plan.needs[x] \subseteq noted' }
  /\ UNCHANGED <<lib, running, built, inst, failed, begun, phase, fine>> /\ Keep
RepoDone == /\ phase = "repo" /\ running = {} /\ ready \subseteq noted /\ phase' = "tars"
            /\ UNCHANGED <<lib, running, built, inst, failed, begun, fine, ready, noted>> /\ Keep
Tarball(p) ==
  /\ phase = "tars" /\ p \in r.tars /\ Active("T", p) \notin begun /\ running = {}
  /\ Call("T", p, [ver |-> "1", marker |-> TarMarker(TarOf(r.c, p))], FALSE)
  /\ UNCHANGED <<lib, built, inst, failed, phase, ready, noted>> /\ Keep
TarsDone == /\ phase = "tars" /\ running = {} /\ \A p \in r.tars : Active("T", p) \in begun
            /\ phase' = "over"
            /\ lib' = IF failed # {} /\ ~r.c.norollback THEN r.lib0 ELSE lib
            /\ UNCHANGED <<running, built, inst, failed, begun, fine, ready, noted>> /\ Keep
\* what it leaves
Exists == IF phase = "over" /\ r.active /\ ~(failed # {} /\ ~r.c.norollback) THEN TRUE ELSE r.exists0
Outcome == IF r.cmd = "install" /\ ~r.active THEN "err" ELSE IF ~r.plan.ok \/ BadTar THEN "err" ELSE "ok"
Out == /\ phase = "over" /\ phase' = "end"
       /\ fine' = CanEnd(lib, Exists, lib, Outcome)
       /\ UNCHANGED <<lib, running, built, inst, failed, begun, ready, noted>> /\ Keep
Done == phase = "end" /\ UNCHANGED mvars
MCNext == Prepare \/ (\E p \in Names : Take(p) \/ Second(p) \/ Note(p)) \/ (\E q \in running, ok \in BOOLEAN : End(q, ok)) \/ RepoDone \/ (\E p \in r.tars : Tarball(p)) \/ TarsDone \/ Out \/ Done
MCSpec == MCInit /\ [][MCNext]_mvars /\ WF_mvars(MCNext /\ ~Done)
Fine == fine
\* as many as announced before (C05)
Announced == phase = "end" /\ Succeeded /\ r.plan.plan \cap r.tars = {} =>
   Cardinality(inst) = Cardinality(ToInstall(r.plan, r.c, r.lib0)) + Cardinality(r.tars) /\ Cardinality((inst \cap DOMAIN r.lib0) \ r.tars) = Cardinality(Staged(r.plan, r.c, r.lib0))
Ends == <>(phase = "end")
AllIds == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C16", "C23"}
=============================================================================
