------------------------------ MODULE LoadImpl ------------------------------
(***************************************************************************)
(* How packages are loaded: one thread of control per package, all waiting   *)
(* for one of a number of slots; the slot is given back after the result has   *)
(* been handed over; the main thread collects as many results as there are       *)
(* packages and then reports.  It implements Load (C10, C24).                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Asked, Workers
VARIABLES truth, at, results, report, count, done
vars == <<truth, at, results, report, count, done>>
Truth(p, lok, iok) == [lok |-> lok, iok |-> iok, ver |-> p, path |-> p, out |-> p, err |-> p]
Results == [p \in Asked |-> [pkg |-> p, ver |-> IF truth[p].iok THEN p ELSE 0, path |-> IF truth[p].iok THEN p ELSE 0, out |-> p, err |-> p, ok |-> truth[p].lok]]
Init ==
  /\ \E a, b \in [Asked -> BOOLEAN] : truth = [p \in Asked |-> Truth(p, a[p], b[p])]
  /\ at = [p \in Asked |-> "wait"] /\ results = <<>> /\ report = <<>> /\ count = 0 /\ done = FALSE
In(S) == {p \in Asked : at[p] \in S}
Held == Cardinality(In({"slot", "load", "loaded", "look", "looked", "give"}))
Move(p, a, b) == at[p] = a /\ at' = [at EXCEPT ![p] = b]
Slot(p) == Held < 2 * Workers /\ Move(p, "wait", "slot") /\ UNCHANGED <<truth, results, report, count, done>>
LoadP(p) == Move(p, "slot", "load") /\ UNCHANGED <<truth, results, report, count, done>>
Loaded(p) == Move(p, "load", "loaded") /\ UNCHANGED <<truth, results, report, count, done>>
LookUp(p) == Move(p, "loaded", "look") /\ UNCHANGED <<truth, results, report, count, done>>
LookedUp(p) == Move(p, "look", "looked") /\ UNCHANGED <<truth, results, report, count, done>>
HandOver(p) == Move(p, "looked", "give") /\ results' = Append(results, Results[p]) /\ UNCHANGED <<truth, report, count, done>>
GiveBack(p) == Move(p, "give", "end") /\ UNCHANGED <<truth, results, report, count, done>>
Collect == /\ results # <<>> /\ ~done /\ results' = Tail(results)
           /\ LET x == Head(results) IN
              /\ report' = [y \in DOMAIN report \cup {x.pkg} |-> IF y = x.pkg THEN x ELSE report[y]]
              /\ count' = IF x.ok THEN count ELSE count + 1
           /\ UNCHANGED <<truth, at, done>>
Report == ~done /\ DOMAIN report = Asked /\ done' = TRUE /\ UNCHANGED <<truth, at, results, report, count>>
Real == Collect \/ Report \/ \E p \in Asked : Slot(p) \/ LoadP(p) \/ Loaded(p) \/ LookUp(p) \/ LookedUp(p) \/ HandOver(p) \/ GiveBack(p)
Next == Real \/ (done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Real)

\* ------------------------------------------------------------ Load
S(k, p) == [k |-> k, p |-> p]
active == {S("L", p) : p \in In({"load"})} \cup {S("N", p) : p \in In({"look"})}
begun == {S("L", p) : p \in In({"load", "loaded", "look", "looked", "give", "end"})} \cup {S("N", p) : p \in In({"look", "looked", "give", "end"})}
ended == {S("L", p) : p \in In({"loaded", "look", "looked", "give", "end"})} \cup {S("N", p) : p \in In({"looked", "give", "end"})}
L == INSTANCE Load WITH q <- [asked |-> Asked, slots |-> 2 * Workers, truth |-> truth], active <- active, begun <- begun, ended <- ended, Checks <- {"C10", "C24"}
Sessions == {S(k, p) : k \in {"L", "N"}, p \in Asked}
LNext == \E s \in Sessions : (L!CanOpen(s.k, s.p) /\ L!Open(s.k, s.p)) \/ (s \in active /\ L!Close(s.k, s.p))
Refines == [][LNext]_<<active, begun, ended>>
Exact == done => L!ReportOK(report, count) /\ L!AllDone
Ends == <>done
=============================================================================
