------------------------------ MODULE MCEngine ------------------------------
(* Engine over every dependency relation of N packages, every set of present *)
(* packages, and every number of workers up to W.                            *)
EXTENDS Engine, Resolve
CONSTANTS N, W
P == 1..N
Dags == {d \in [P -> SUBSET P] : \A p \in P : \A q \in d[p] : q < p}
MCInit == \E d \in Dags, k \in 1..W : \E h \in SUBSET P : EngineInit([p \in P |-> Closure(d, d[p])], h, k)
MCSpec == MCInit /\ [][EngineNext]_evars /\ WF_evars(EngineNext)
\* every run comes to an end (C09)
Ends == <>[](Quiet)
\* a present package never occupies a worker, a package is never handled twice (C07)
Once == \A p \in P : p \in noted => p \in begun
=============================================================================
