------------------------------ MODULE GenScale ------------------------------
(***************************************************************************)
(* Large plans: their shape, which packages are in the library already, which *)
(* fail and how, and how many workers there are.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Profile
VARIABLES stage, f
Pick(S) == RandomElement(S)
Odds(p) == RandomElement(1..100) <= p
Shape(s) == TLCEval(<<"star", "star", "star", "funnel", "funnel", "rstar", "wide", "chain", "comb", "layers">>[Pick(1..10 + 0 * s)])
\* n, k: size; absent: how many are to be installed, and where they are
Size(sh, s) ==
  CASE Profile.middle /\ sh = "layers" -> LET k == TLCEval(Pick(8..22 + 0 * s)) IN [n |-> 3 * k, k |-> k]
    [] Profile.middle -> [n |-> Pick(22..70 + 0 * s), k |-> Pick({1, 3, 12, 20})]
    [] sh = "chain" -> LET n == TLCEval(Pick(40..140 + 0 * s)) IN [n |-> n, k |-> 1]
    [] sh = "layers" -> LET k == TLCEval(Pick(10..60 + 0 * s)) IN [n |-> k * Pick(3..4), k |-> k]
    [] sh = "comb" -> [n |-> Pick(1500..2600 + 0 * s), k |-> Pick({2, 7, 300})]
    [] sh = "funnel" -> LET n == TLCEval(Pick(2700..3300 + 0 * s)) IN [n |-> n, k |-> Pick({1, 3, 20, 100})]
    [] OTHER -> [n |-> Pick({520, 2010, 2600, 2700, 2800, 3200 + 0 * s}), k |-> 1]
Run(s) ==
  LET sh == Shape(s)
      z == TLCEval(Size(sh, s))
      bin == TLCEval(Odds(40))
      all == TLCEval((IF Profile.middle THEN Odds(60) ELSE z.n <= 250) \/ (bin /\ Odds(40)))
  IN TLCEval([shape |-> sh, n |-> z.n, k |-> z.k, bin |-> bin,
      absent |-> IF all THEN z.n ELSE Pick({1, 2, 30, 60}), slow |-> IF Profile.middle THEN Pick(0..3) ELSE 0, where |-> Pick({"first", "last", "spread", "hubs"}),
      fail |-> Pick({"none", "none", "one", "first", "last", "all", "some"}), how |-> Pick({"bf", "if", "nobin", "sig"}), pick |-> Pick(1..1000),
      threads |-> Pick({1, 2, 3, 8, 8, 32, 200, 0}), procs |-> Pick({1, 2, 8, 16}), norollback |-> Odds(40)])
Init == stage = 0 /\ f = <<>>
Next ==
  \/ stage = 0 /\ stage' = 1 /\ f' = Run(stage + 100)
  \/ stage = 1 /\ stage' = 2 /\ UNCHANGED f /\ PrintT("SCN " \o ToJson(f))
ProfScale == [middle |-> FALSE]
\* some tens of packages, a few of them slow
ProfMiddle == [middle |-> TRUE]
=============================================================================
