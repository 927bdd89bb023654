----------------------------- MODULE EngineImpl -----------------------------
(***************************************************************************)
(* How pkgr schedules installations: a channel of packages that may be        *)
(* started, a receiver that moves them into the work queue, workers, a queue  *)
(* of results, one handler that takes note of the results and signals         *)
(* packages that have become ready, and a wait group the main thread waits    *)
(* for.  All queues are bounded.  It must implement Engine (Refines), and     *)
(* the main thread must always get through (Finishes, no deadlock).           *)
(*                                                                            *)
(*   sig     packages signalled (room for SigCap)     recv  what the receiver *)
(*   wq, uq  work and update queue (WqCap, UqCap)           holds, or 0       *)
(*   at      worker -> package it has, or 0                                   *)
(*   fin     packages whose R calls are over, with the result                 *)
(*   hand    what the handler holds: packages it still has to signal and the  *)
(*           result it is handling (0: none)                                  *)
(*   good    packages noted as installed              anyfail  a failure was  *)
(*   told    signalled so far                                  noted          *)
(*   wg      the wait group                           main  packages the main *)
(*                                                    thread has to signal    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Resolve
CONSTANTS N, W, SigCap, WqCap, UqCap
P == 1..N

VARIABLES deps, here, k, sig, recv, wq, uq, at, fin, hand, good, bad, anyfail, wg, main, stop
ivars == <<deps, here, k, sig, recv, wq, uq, at, fin, hand, good, bad, anyfail, wg, main, stop>>

Dags == {d \in [P -> SUBSET P] : \A p \in P : \A q \in d[p] : q < p}
Star == {[p \in P |-> IF p = 1 THEN {} ELSE {1}]}
SetSeq(S) == LET RECURSIVE go(_) go(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : \A y \in T : x <= y IN <<x>> \o go(T \ {x}) IN go(S)

Idle == [p |-> 0, todo |-> <<>>]
Init ==
  /\ deps \in Dags /\ here \in SUBSET P /\ k \in 1..W
  /\ sig = <<>> /\ recv = 0 /\ wq = <<>> /\ uq = <<>>
  /\ at = [i \in 1..W |-> 0] /\ fin = <<>> /\ hand = Idle /\ good = {} /\ bad = {} /\ anyfail = FALSE
  /\ wg = 0 /\ main = SetSeq({p \in P : deps[p] = {}}) /\ stop = FALSE

\* the main thread: signals what needs nothing, then waits
MainSignal == /\ main # <<>> /\ Len(sig) < SigCap
              /\ sig' = Append(sig, Head(main)) /\ main' = Tail(main) /\ wg' = wg + 1
              /\ UNCHANGED <<deps, here, k, recv, wq, uq, at, fin, hand, good, bad, anyfail, stop>>
MainDone == /\ main = <<>> /\ wg = 0 /\ ~stop /\ stop' = TRUE
            /\ UNCHANGED <<deps, here, k, sig, recv, wq, uq, at, fin, hand, good, bad, anyfail, wg, main>>
\* the receiver
Receive == /\ recv = 0 /\ sig # <<>> /\ sig' = Tail(sig)
           /\ IF anyfail THEN wg' = wg - 1 /\ UNCHANGED recv ELSE recv' = Head(sig) /\ UNCHANGED wg
           /\ UNCHANGED <<deps, here, k, wq, uq, at, fin, hand, good, bad, anyfail, main, stop>>
Push == /\ recv # 0 /\ Len(wq) < WqCap /\ wq' = Append(wq, recv) /\ recv' = 0
        /\ UNCHANGED <<deps, here, k, sig, uq, at, fin, hand, good, bad, anyfail, wg, main, stop>>
\* workers
Fetch(i) == /\ at[i] = 0 /\ wq # <<>> /\ at' = [at EXCEPT ![i] = Head(wq)] /\ wq' = Tail(wq)
            /\ UNCHANGED <<deps, here, k, sig, recv, uq, fin, hand, good, bad, anyfail, wg, main, stop>>
Work(i) == /\ at[i] # 0 /\ at[i] \notin DOMAIN fin
           /\ \E how \in IF at[i] \in here THEN {"ok"} ELSE {"ok", "fail"} :
                fin' = [x \in DOMAIN fin \cup {at[i]} |-> IF x = at[i] THEN how ELSE fin[x]]
           /\ UNCHANGED <<deps, here, k, sig, recv, wq, uq, at, hand, good, bad, anyfail, wg, main, stop>>
Report(i) == /\ at[i] # 0 /\ at[i] \in DOMAIN fin /\ Len(uq) < UqCap
             /\ uq' = Append(uq, at[i]) /\ at' = [at EXCEPT ![i] = 0]
             /\ UNCHANGED <<deps, here, k, sig, recv, wq, fin, hand, good, bad, anyfail, wg, main, stop>>
\* the handler
Handle == /\ hand = Idle /\ uq # <<>> /\ uq' = Tail(uq)
          /\ LET p == Head(uq) IN
             IF fin[p] = "fail" THEN anyfail' = TRUE /\ hand' = [p |-> p, todo |-> <<>>] /\ bad' = bad \cup {p} /\ UNCHANGED good
             ELSE /\ good' = good \cup {p} /\ UNCHANGED <<anyfail, bad>>
                  /\ hand' = [p |-> p, todo |-> IF anyfail THEN <<>> ELSE SetSeq({x \in P : p \in deps[x] /\ deps[x] \subseteq good'})]
          /\ UNCHANGED <<deps, here, k, sig, recv, wq, at, fin, wg, main, stop>>
Signal == /\ hand.todo # <<>> /\ Len(sig) < SigCap
          /\ sig' = Append(sig, Head(hand.todo)) /\ hand' = [hand EXCEPT !.todo = Tail(@)] /\ wg' = wg + 1
          /\ UNCHANGED <<deps, here, k, recv, wq, uq, at, fin, good, bad, anyfail, main, stop>>
Settle == /\ hand.p # 0 /\ hand.todo = <<>> /\ hand' = Idle /\ wg' = wg - 1
          /\ UNCHANGED <<deps, here, k, sig, recv, wq, uq, at, fin, good, bad, anyfail, main, stop>>
Over == stop /\ UNCHANGED ivars
Real == MainSignal \/ MainDone \/ Receive \/ Push \/ Handle \/ Signal \/ Settle
        \/ \E i \in 1..k : Fetch(i) \/ Work(i) \/ Report(i)
Next == Real \/ Over
Spec == Init /\ [][Next]_ivars /\ WF_ivars(Real)

WgRight == wg >= 0
\* when the main thread goes on, nothing is under way
NothingLeft == stop => sig = <<>> /\ recv = 0 /\ wq = <<>> /\ uq = <<>> /\ (\A i \in 1..W : at[i] = 0) /\ hand = Idle
Complete == stop /\ ~anyfail => good = P
Finishes == <>stop
QueueBounds == Len(sig) <= SigCap /\ Len(wq) <= WqCap /\ Len(uq) <= UqCap

\* ------------------------------------------------------------ what it implements
Noted == good \cup bad
Told == {p \in P : deps[p] = {}} \cup {p \in P : deps[p] # {} /\ (p \in {sig[i] : i \in DOMAIN sig} \/ p = recv \/ p \in {wq[i] : i \in DOMAIN wq}
                                         \/ p \in DOMAIN fin \/ (\E i \in 1..W : at[i] = p) \/ p \in {hand.todo[i] : i \in DOMAIN hand.todo})}
VARIABLE everTold  \* history: what has been signalled (the receiver may drop packages after a failure)
HInit == Init /\ everTold = {p \in P : deps[p] = {}}
HNext == Next /\ everTold' = everTold \cup Told'
HSpec == HInit /\ [][HNext]_<<ivars, everTold>> /\ WF_<<ivars, everTold>>(Real /\ HNext)
Reported == DOMAIN fin \ {at[i] : i \in 1..W}
AtWork == {at[i] : i \in 1..W} \ {0}
Eng == INSTANCE Engine WITH
  need <- [p \in P |-> Closure(deps, deps[p])], here <- here, workers <- k,
  ready <- everTold,
  begun <- (DOMAIN fin \cup AtWork) \ (here \cap AtWork),
  busy <- AtWork \ here,
  res <- [p \in DOMAIN fin \ (here \cap AtWork) |-> fin[p]],
  queue <- uq, noted <- Noted
Refines == [][Eng!EngineNext]_(Eng!evars)
=============================================================================
