----------------------------- MODULE SecureImpl -----------------------------
(***************************************************************************)
(* How a run fetches: all databases at once, a connection per server of the   *)
(* chain, the first that fails ends the run; then all packages, and all are    *)
(* awaited.  Whatever the order of the connections and the moment the run      *)
(* ends, what was asked for and kept is what Secure allows.                     *)
(***************************************************************************)
EXTENDS Secure, TLC
CONSTANTS Runs,
          PkgChecked,   \* packages are fetched as strictly as databases
          Retries       \* a connection that is refused is made again without a check
VARIABLES pc, q, o, at, n, pre
vars == <<known, cached, lib, pc, q, o, at, n, pre>>
Ids == {1, 2}
Kinds == {[front |-> a, back |-> b] : a \in {"plain", "good", "self"}, b \in {"", "good", "self"}}
Plain == [front |-> "plain", back |-> ""]
Qs == {[cmd |-> c, flag |-> f, file |-> g, trusted |-> t, kinds |-> <<k, l>>, forget |-> x, empty |-> y] :
         c \in {"plan", "install"}, f \in {"", "off"}, g \in {"", "on"}, t \in BOOLEAN, k \in Kinds,
         l \in {Plain, [front |-> "good", back |-> ""], [front |-> "self", back |-> ""]}, x \in BOOLEAN, y \in BOOLEAN}
NoRun == [cmd |-> ""]
Init == /\ known = {} /\ cached = {} /\ lib = {} /\ pc = "idle" /\ q = NoRun /\ o = <<>> /\ at = <<>> /\ n = 0 /\ pre = <<>>
Begin ==
  /\ pc = "idle" /\ n < Runs /\ n' = n + 1 /\ pc' = "db"
  /\ q' \in {x \in Qs : known = {} => x.forget}
  /\ known' = (IF q'.forget THEN {} ELSE known) /\ cached' = (IF q'.empty THEN {} ELSE cached) /\ UNCHANGED lib
  \* at: how far the fetch of each repository has got
  /\ at' = [i \in Ids |-> IF i \in known' THEN "done" ELSE "front"]
  /\ o' = [outcome |-> "", reqs |-> {}, lib |-> lib, cached |-> {}]
  /\ pre' = [known |-> known, cached |-> cached, lib |-> lib]
Ok(kind, what) == Accepts(q, kind) \/ Retries \/ (what = "pkg" /\ ~PkgChecked)
Connect(what, i) ==
  LET hop == at[i] IN
  /\ hop \in {"front", "back"}
  /\ IF Ok(Kind(q, i, hop), what)
     THEN /\ o' = [o EXCEPT !.reqs = @ \cup {[repo |-> i, hop |-> hop, what |-> what]}]
          /\ at' = [at EXCEPT ![i] = IF hop = "front" /\ q.kinds[i].back # "" THEN "back" ELSE "done"]
          /\ cached' = IF what = "pkg" /\ at'[i] = "done" THEN cached \cup {i} ELSE cached
     ELSE /\ at' = [at EXCEPT ![i] = "failed"] /\ UNCHANGED <<o, cached>>
  /\ UNCHANGED <<known, lib, q, n, pre>>
Db(i) == pc = "db" /\ (\A j \in Ids : at[j] # "failed") /\ Connect("db", i) /\ pc' = pc
\* a run ends: what it leaves is compared
End(how) == /\ pc' = "end" /\ o' = [o EXCEPT !.outcome = how, !.lib = lib, !.cached = cached] /\ UNCHANGED <<known, cached, lib, q, at, n, pre>>
Failed == pc = "db" /\ (\E j \in Ids : at[j] = "failed") /\ End("err")
DbDone ==
  /\ pc = "db" /\ \A j \in Ids : at[j] = "done"
  /\ IF q.cmd = "plan" THEN End("ok") ELSE pc' = "pkg" /\ at' = [i \in Ids |-> IF i \in cached THEN "done" ELSE "front"] /\ UNCHANGED <<known, cached, lib, q, o, n, pre>>
Pkg(i) == pc = "pkg" /\ Connect("pkg", i) /\ pc' = pc
PkgFailed == pc = "pkg" /\ (\A j \in Ids : at[j] \in {"done", "failed"}) /\ (\E j \in Ids : at[j] = "failed") /\ End("err")
Install == /\ pc = "pkg" /\ (\A j \in Ids : at[j] = "done") /\ pc' = "end" /\ lib' = Ids
           /\ o' = [o EXCEPT !.outcome = "ok", !.lib = Ids, !.cached = cached] /\ UNCHANGED <<known, cached, q, at, n, pre>>
Close == /\ pc = "end" /\ pc' = "idle" /\ known' = IF o.outcome = "ok" THEN Ids ELSE {}
         /\ q' = NoRun /\ o' = <<>> /\ at' = <<>> /\ pre' = <<>> /\ UNCHANGED <<cached, lib, n>>
Next == Begin \/ (\E i \in Ids : Db(i) \/ Pkg(i)) \/ Failed \/ DbDone \/ PkgFailed \/ Install \/ Close
Spec == Init /\ [][Next]_vars
\* the run as Secure sees it, from the state it began in
S == INSTANCE Secure WITH known <- pre.known, cached <- pre.cached, lib <- pre.lib
Right == pc = "end" => S!RunOK(q, o)
Guarded == pc \in {"db", "pkg", "end"} => \A x \in o.reqs : Accepts(q, Kind(q, x.repo, x.hop))
=============================================================================
