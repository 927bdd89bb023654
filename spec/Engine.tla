------------------------------- MODULE Engine -------------------------------
(***************************************************************************)
(* The scheduling of installations, with what an outside observer cannot    *)
(* see: a worker takes a package that has been found ready, runs its R       *)
(* calls, and hands over the result; results are taken note of one after the *)
(* other in the order in which they were handed over; a package becomes      *)
(* ready when the last package it needs has been noted as installed, unless  *)
(* a failure was noted before.                                               *)
(*                                                                          *)
(*   need    : package -> packages it needs, directly or indirectly          *)
(*   here    : packages that are present already (no R call)                 *)
(*   workers : number of workers                                             *)
(*   ready   : found ready at some time                                      *)
(*   begun   : taken by a worker                                             *)
(*   busy    : packages at a worker: running or finished but not handed over *)
(*   res     : package -> "ok" / "fail" for finished packages                *)
(*   queue   : results handed over and not yet noted                         *)
(*   noted   : packages whose result has been noted                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES need, here, workers, ready, begun, busy, res, queue, noted
evars == <<need, here, workers, ready, begun, busy, res, queue, noted>>

Pkgs == DOMAIN need
EngineInit(n, h, k) ==
  /\ need = n /\ here = h /\ workers = k
  /\ ready = {p \in DOMAIN n : n[p] = {}}
  /\ begun = {} /\ busy = {} /\ res = <<>> /\ queue = <<>> /\ noted = {}

FailureNoted == \E p \in noted : res[p] = "fail"
NotedOK == {p \in noted : res[p] = "ok"}

Put(f, p, v) == [x \in DOMAIN f \cup {p} |-> IF x = p THEN v ELSE f[x]]

\* a worker takes package p, and its first R call starts
CanTake(p) == p \in ready \ begun /\ Cardinality(busy) < workers
Take(p) ==
  /\ CanTake(p)
  /\ begun' = begun \cup {p} /\ busy' = busy \cup {p}
  /\ UNCHANGED <<need, here, workers, ready, res, queue, noted>>
\* its last R call ends
Complete(p, how) ==
  /\ p \in busy /\ p \notin DOMAIN res
  /\ res' = Put(res, p, how)
  /\ UNCHANGED <<need, here, workers, ready, begun, busy, queue, noted>>
HandOver(p) ==
  /\ p \in busy /\ p \in DOMAIN res
  /\ busy' = busy \ {p} /\ queue' = Append(queue, p)
  /\ UNCHANGED <<need, here, workers, ready, begun, res, noted>>
\* a present package passes through a worker without an R call
PassBy(p) ==
  /\ p \in here /\ CanTake(p)
  /\ begun' = begun \cup {p} /\ queue' = Append(queue, p) /\ res' = Put(res, p, "ok")
  /\ UNCHANGED <<need, here, workers, ready, busy, noted>>
Note ==
  /\ queue # <<>>
  /\ LET p == Head(queue) IN
     /\ queue' = Tail(queue)
     /\ noted' = noted \cup {p}
     /\ LET good == {x \in noted' : res[x] = "ok"}
            failed == \E x \in noted' : res[x] = "fail"
        IN ready' = IF failed THEN ready ELSE ready \cup {x \in Pkgs : need[x] # {} /\ need[x] \subseteq good}
  /\ UNCHANGED <<need, here, workers, begun, busy, res>>

Hidden == (\E p \in busy : HandOver(p)) \/ (\E p \in here : PassBy(p)) \/ Note
Step(p) == Take(p) \/ Complete(p, "ok") \/ Complete(p, "fail")
EngineNext == Hidden \/ \E p \in Pkgs \ here : Step(p)

\* ------------------------------------------------ what follows (C06, C07, C08, C09, C10)
Bounded == Cardinality(busy) <= workers
NeedsFirst == \A p \in begun : need[p] \subseteq NotedOK
NothingAfterFailure == \A p \in begun : \A q \in DOMAIN res : res[q] = "fail" => q \notin need[p]
Quiet == ~ENABLED EngineNext
AllInstalled == (Quiet /\ \A p \in DOMAIN res : res[p] = "ok") => begun = Pkgs /\ noted = Pkgs
\* once a failure is noted the set of ready packages is fixed
FrozenReady == [][FailureNoted => ready' = ready]_evars
=============================================================================
