------------------------------- MODULE Scale -------------------------------
(***************************************************************************)
(* Installs of thousands of packages: packages are the numbers 1..n, and     *)
(* what each needs (s: the shape of the plan) is given by rules.  The         *)
(* conditions are those of Install and Engine on whole runs.                  *)
(*   star    all need 1               rstar   n needs all others              *)
(*   wide    nobody needs anything    chain   p needs 1..p-1                  *)
(*   comb    p > k needs 1 + p % k    funnel  k+1 needs 1..k, later ones k+1  *)
(*   layers  layers of k packages, each needing all of those before           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC

CONSTANT Checks
G(id, cond) == id \notin Checks \/ cond
Rng(s) == {s[i] : i \in DOMAIN s}

Direct(s, n, k, p) ==
  CASE s = "star" -> IF p > 1 THEN {1} ELSE {}
    [] s = "rstar" -> IF p = n THEN 1..(n - 1) ELSE {}
    [] s = "wide" -> {}
    [] s = "chain" -> IF p > 1 THEN {p - 1} ELSE {}
    [] s = "comb" -> IF p > k THEN {1 + (p % k)} ELSE {}
    [] s = "funnel" -> IF p = k + 1 THEN 1..k ELSE IF p > k + 1 THEN {k + 1} ELSE {}
    [] s = "layers" -> LET l == (p - 1) \div k IN IF l = 0 THEN {} ELSE (((l - 1) * k) + 1)..(l * k)
\* everything needed, directly or not
Needs(s, n, k, p) ==
  CASE s = "chain" -> 1..(p - 1)
    [] s = "layers" -> 1..(((p - 1) \div k) * k)
    [] s = "funnel" -> IF p > k + 1 THEN 1..(k + 1) ELSE Direct(s, n, k, p)
    [] OTHER -> Direct(s, n, k, p)

\* t: a run: [s, n, k, here, workers, norollback, calls, failed, outcome, final]
\* calls: p when an R call for package p starts, -p when it ends; two calls make a build and its
\* installation
Peak(calls) == FoldLeft(LAMBDA a, c : LET m == a[1] + (IF c > 0 THEN 1 ELSE -1) IN <<m, IF m > a[2] THEN m ELSE a[2]>>, <<0, 0>>, calls)[2]
Todo(t) == (1..t.n) \ Rng(t.here)
Started(t) == {c \in Rng(t.calls) : c > 0}
\* position of the first start and of the last end of every package
Starts(t) == FoldLeft(LAMBDA f, i : LET c == t.calls[i] IN IF c > 0 /\ f[c] = 0 THEN [f EXCEPT ![c] = i] ELSE f, [p \in 1..t.n |-> 0], [i \in 1..Len(t.calls) |-> i])
Ends(t) == FoldLeft(LAMBDA f, i : LET c == t.calls[i] IN IF c < 0 THEN [f EXCEPT ![-c] = i] ELSE f, [p \in 1..t.n |-> 0], [i \in 1..Len(t.calls) |-> i])

ScaleOK(t) ==
  LET failed == Rng(t.failed)
      final == Rng(t.final)
      st == Starts(t)
      en == Ends(t)
      began == Started(t)
  IN /\ G("C09", t.outcome = "ok")
     /\ G("C10", Peak(t.calls) <= t.workers)
     /\ t.outcome = "ok" =>
        /\ G("C07", began \subseteq Todo(t))
        /\ G("C07", failed = {} => began = Todo(t) /\ final = 1..t.n)
        /\ G("C07", \A p \in began : Len(SelectSeq(t.calls, LAMBDA c : c = p)) <= t.percall)
        /\ G("C06", \A p \in began : \A q \in Direct(t.s, t.n, t.k, p) \cap Todo(t) : en[q] # 0 /\ en[q] < st[p])
        /\ G("C08", \A p \in began : Needs(t.s, t.n, t.k, p) \cap failed = {})
        /\ G("C09", failed = {} => final = 1..t.n)
        /\ G("C11", failed # {} /\ ~t.norollback => final = Rng(t.here))
=============================================================================
