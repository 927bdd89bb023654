------------------------------ MODULE Install ------------------------------
(***************************************************************************)
(* One pkgr command over a package library, seen from outside: the calls of *)
(* R it makes and the library it leaves.  A run begins with a command, a    *)
(* world, a configuration and a library, makes R calls (building a package  *)
(* in a scratch library, installing a package into the library, installing  *)
(* a tarball) that each start and end, and ends.                             *)
(*                                                                          *)
(* Every condition carries the property it belongs to; G(id, cond) is the   *)
(* condition if the property is among Checks.  The same operators serve the *)
(* model (MCInstall: actions are guarded by them) and the checking of       *)
(* recorded runs (TraceInstall: a recorded step must satisfy them).          *)
(***************************************************************************)
EXTENDS Resolve

CONSTANT Checks
G(id, cond) == id \notin Checks \/ cond

VARIABLES
  r,        \* the run: see NewRun
  lib,      \* name -> [ver, marker]: packages of the library, by directory
  running,  \* R calls under way: set of [k, p]  (k: "B" build, "I" install, "T" tarball)
  built,    \* packages whose build succeeded
  inst,     \* packages whose installation succeeded
  failed,   \* packages and tarballs that failed
  begun,    \* R calls that were started
  aborted   \* the run met an obstacle other than a failing R call (see Obstacle)

vars == <<r, lib, running, built, inst, failed, begun, aborted>>

\* ------------------------------------------------------------- a run's terms
Marker(sel) == sel.oid \o "/" \o (IF sel.type = "source" THEN "src" ELSE "bin") \o "/" \o sel.rec.pkg \o "_" \o sel.rec.ver
TarMarker(t) == "tar/" \o t.pkg \o "_" \o t.ver \o t.cid
TarPkgs(c) == {c.tarballs[i].pkg : i \in DOMAIN c.tarballs}
TarOf(c, p) == c.tarballs[CHOOSE i \in DOMAIN c.tarballs : c.tarballs[i].pkg = p]

WorkerBound(threads, procs) == IF threads > 0 THEN threads ELSE IF procs < 8 THEN procs ELSE 8

\* l0: packages of the library; full0: digest of every entry of the library; ex: whether it exists
\* the world as it would be if no record required anything of R
Lenient(w) ==
  LET free(recs) == [i \in DOMAIN recs |-> [recs[i] EXCEPT !.rc = [op |-> "none", vn |-> <<0>>, str |-> ""]]]
  IN [w EXCEPT !.repos = [i \in DOMAIN w.repos |-> [w.repos[i] EXCEPT !.src = free(w.repos[i].src), !.bin = free(w.repos[i].bin)]]]
NoPlan == [missing |-> {}, bad |-> FALSE, plan |-> {}]

NewRun(cmd, w, c, l0, full0, ex, procs) ==
  LET pl == PlanOf(w, c)
      tp == TarPkgs(c)
      here == DOMAIN l0
  IN [cmd |-> cmd, w |-> w, c |-> c, plan |-> pl, lib0 |-> l0, full0 |-> full0, exists0 |-> ex,
      workers |-> WorkerBound(c.threads, procs),
      tars |-> tp,
      \* what would be planned if every record were usable
      lenient |-> IF "C03" \in Checks THEN PlanOf(Lenient(w), c) ELSE NoPlan,
      \* packages with an older version in the library
      outdated |-> {p \in pl.plan \cap here : Older(l0[p].vn, pl.sel[p].rec.vn)},
      staged |-> IF c.update THEN {p \in pl.plan \cap here : Older(l0[p].vn, pl.sel[p].rec.vn)} ELSE {},
      fresh |-> pl.plan \ here,
      \* installing is what the command is for, and nothing stands in its way
      active |-> cmd = "install" /\ pl.ok /\ ~(c.strict /\ ~ex) /\ ~(\E i \in DOMAIN c.tarballs : c.tarballs[i].bad)]

\* a tarball that cannot be read or not be unpacked completely within its own directory
BadTar == \E i \in DOMAIN r.c.tarballs : r.c.tarballs[i].bad

\* packages of the plan that the run fetches from the repositories; a package that is given as a
\* tarball too gives way to the tarball, so its repository version counts as missing
TodoRepo == IF r.active THEN r.fresh \cup r.staged \cup (r.plan.plan \cap r.tars) ELSE {}
TodoTar  == IF r.active THEN r.tars ELSE {}

\* the content a package of the plan has while repository packages are being installed
Content(p) == IF p \in TodoRepo THEN [ver |-> r.plan.sel[p].rec.ver, marker |-> Marker(r.plan.sel[p])]
              ELSE [ver |-> r.lib0[p].ver, marker |-> r.lib0[p].marker]
Have(l, p, x) == p \in DOMAIN l /\ l[p].ver = x.ver /\ l[p].marker = x.marker

Active(k, p) == [k |-> k, p |-> p]

\* ------------------------------------------------------------- R calls
\* l: the library as the call sees it; x: the content being handled
CanStart(k, p, x, l, scratch) ==
  /\ G("C04", r.cmd = "install" /\ ~(r.c.strict /\ ~r.exists0))
  /\ G("C01", r.plan.ok /\ (IF k = "T" THEN p \in r.tars ELSE p \in r.plan.plan))
  /\ G("C10", Cardinality(running) < r.workers)
  /\ k # "T" =>
     \* nothing that is out of the plan for its requirement on R
     /\ G("C03", p \in r.plan.plan \/ p \notin r.lenient.plan)
     /\ G("C07", p \in TodoRepo /\ Active(k, p) \notin begun
                 /\ ((k = "I" /\ Active("B", p) \in begun) => p \in built)
                 /\ (k = "B" => Active("I", p) \notin begun))
     /\ p \in r.plan.plan =>
        /\ G("C06", \A d \in r.plan.needs[p] : Have(l, d, Content(d)))
        /\ G("C08", p \notin failed /\ r.plan.needs[p] \cap failed = {})
        /\ G("C02", x.marker = Marker(r.plan.sel[p]))
        /\ G("C03", x.ver = r.plan.sel[p].rec.ver)
        /\ G("C12", p \in DOMAIN r.lib0 /\ p \notin r.tars => p \in r.staged)
        /\ G("C16", x = [ver |-> r.plan.sel[p].rec.ver, marker |-> Marker(r.plan.sel[p])])
  /\ k = "T" =>
     /\ G("C23", p \in r.tars => x.marker = TarMarker(TarOf(r.c, p)))
     /\ G("C23", r.active /\ p \in r.tars /\ Active(k, p) \notin begun)
     /\ G("C23", failed = {} => \A d \in HardDeps(TarOf(r.c, p)) : d \in r.plan.plan \ r.tars => Have(l, d, Content(d)))
     \* tarballs come after the repository packages
     /\ G("C23", \A q \in running : q.k = "T")
  \* a build happens apart from the library
  /\ G("C13", scratch = (k = "B"))

AfterEnd(k, p, ok, x) ==
  /\ running' = running \ {Active(k, p)}
  /\ built' = IF k = "B" /\ ok THEN built \cup {p} ELSE built
  /\ inst' = IF k # "B" /\ ok THEN inst \cup {p} ELSE inst
  /\ failed' = IF ok THEN failed ELSE failed \cup {p}

\* ------------------------------------------------------------- the end
Untouched(full, ex) == full = r.full0 /\ ex = r.exists0

\* packages that a failed package keeps from being installed
Blocked == {p \in TodoRepo : p \in failed \/ r.plan.needs[p] \cap failed # {}}

Succeeded == r.active /\ failed = {} /\ ~aborted

\* what the library holds after a run without failure
FinalContent(p) ==
  IF p \in r.tars THEN [ver |-> TarOf(r.c, p).ver, marker |-> TarMarker(TarOf(r.c, p))]
  ELSE Content(p)

\* l, ex: the library at the end (directories -> ver, marker), whether it exists
\* outcome: "ok", "err" (non-zero exit), "hang", "killed"
CanEnd(l, ex, full, outcome) ==
  /\ G("C09", outcome \in {"ok", "err"})
  /\ outcome \in {"ok", "err"} =>
     /\ G("C04", r.cmd # "install" => Untouched(full, ex))
     /\ G("C04", r.cmd = "install" /\ r.c.strict /\ ~r.exists0 => outcome = "err" /\ ~ex)
     /\ G("C02", r.plan.bad => outcome = "err" /\ Untouched(full, ex) /\ begun = {})
     /\ G("C01", ~r.plan.ok => outcome = "err" /\ Untouched(full, ex) /\ begun = {})
     /\ G("C01", r.plan.ok /\ ~BadTar /\ r.cmd # "install" => outcome = "ok")
     /\ G("C26", r.cmd = "inspect" /\ ~BadTar => outcome = (IF r.plan.ok THEN "ok" ELSE "err"))
     /\ G("C01", Succeeded => outcome = "ok" /\ DOMAIN l = DOMAIN r.lib0 \cup r.plan.plan \cup r.tars)
     /\ G("C02", Succeeded => \A p \in TodoRepo \ r.tars : p \in DOMAIN l => l[p].marker = Marker(r.plan.sel[p]))
     /\ G("C03", Succeeded => \A p \in TodoRepo \ r.tars : p \in DOMAIN l => l[p].ver = r.plan.sel[p].rec.ver)
     /\ G("C03", Succeeded => \A p \in r.plan.plan : r.plan.sel[p].rec.rc.op # "none" => p \in DOMAIN l)
     /\ G("C03", r.plan.missing # {} /\ r.lenient.missing = {} => outcome = "err")
     /\ G("C07", Succeeded => TodoRepo \subseteq inst /\ \A p \in r.plan.plan : p \in DOMAIN l)
     /\ G("C12", Succeeded => \A p \in r.plan.plan \ r.tars : Have(l, p, Content(p)))
     /\ G("C23", Succeeded => outcome = "ok" /\ \A p \in r.tars : Have(l, p, FinalContent(p)))
     /\ G("C23", BadTar => outcome = "err" /\ Untouched(full, ex) /\ begun = {})
     /\ G("C16", Succeeded => \A p \in r.plan.plan : Have(l, p, FinalContent(p)))
     \* failure with rollback: everything as before, to the byte
     /\ G("C11", r.active /\ failed # {} /\ ~r.c.norollback => Untouched(full, ex))
     \* failure without rollback: what was installed stays
     /\ G("C11", r.active /\ failed # {} /\ r.c.norollback =>
                 \A p \in inst : p \notin failed => p \in DOMAIN l)
     /\ G("C13", \A d \in DOMAIN r.full0 : d \notin r.plan.plan \cup r.tars => d \in DOMAIN full /\ full[d] = r.full0[d])
     /\ G("C13", \A d \in DOMAIN full : d \in DOMAIN r.full0 \/ d \in r.plan.plan \cup r.tars)
=============================================================================
