-------------------------------- MODULE Load --------------------------------
(***************************************************************************)
(* "pkgr load": R sessions that load packages and look up where they are,    *)
(* and the report over them.                                                 *)
(*   q  the request: asked (set), slots, truth: package -> what R does with  *)
(*      it [lok: loading succeeds, iok: it can be looked up, ver, path,      *)
(*      out, err: messages]                                                  *)
(*   active, begun, ended: sessions [k: "L" load / "N" look up, p]           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANT Checks
LOCAL G(id, cond) == id \notin Checks \/ cond
VARIABLES q, active, begun, ended
lvars == <<q, active, begun, ended>>

Session(k, p) == [k |-> k, p |-> p]
NewRequest(asked, workers, truth) == [asked |-> asked, slots |-> 2 * workers, truth |-> truth]

CanOpen(k, p) ==
  /\ G("C10", Cardinality(active) < q.slots)
  /\ G("C24", p \in q.asked)
  \* one session at a time per package, and one load of it
  /\ G("C24", Session(k, p) \notin begun /\ \A s \in active : s.p # p)
Open(k, p) == active' = active \cup {Session(k, p)} /\ begun' = begun \cup {Session(k, p)} /\ UNCHANGED <<q, ended>>
Close(k, p) == active' = active \ {Session(k, p)} /\ ended' = ended \cup {Session(k, p)} /\ UNCHANGED <<q, begun>>

Failing == {p \in q.asked : ~q.truth[p].lok}

\* res: package -> [pkg, ver, path, out, err, ok]
ResultOK(p, x) ==
  LET t == q.truth[p] IN
  /\ x.pkg = p
  /\ x.ok = t.lok
  /\ x.out = t.out /\ x.err = t.err
  /\ IF t.iok THEN x.ver = t.ver /\ x.path = t.path
     ELSE \A o \in DOMAIN q.truth : x.ver # q.truth[o].ver /\ x.path # q.truth[o].path

ReportOK(res, failures) ==
  /\ DOMAIN res = q.asked
  /\ \A p \in q.asked : ResultOK(p, res[p])
  /\ failures = Cardinality(Failing)

AllDone == \A p \in q.asked : Session("L", p) \in ended
=============================================================================
