------------------------------ MODULE GenLoad ------------------------------
(***************************************************************************)
(* What R does with each package when it is loaded.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Profile
VARIABLES stage, t
Pick(S) == RandomElement(S)
Odds(p) == RandomElement(1..100) <= p
Pkgs == <<"pa", "pb", "pc", "pd", "pe", "pf", "pg", "ph", "pi", "pj", "pk", "pl", "tb1", "tb2", "Matrix", "MASS", "nowhere1", "stats", "utils", "methods", "tools">>
Texts == {"Loading required package: methods", "Attaching package: 'x'", "The following object is masked", "a <b> & \"c\" \\ d", "x", "Warning message:", "LONG", "50% done", "Error: no", "pa", "{\"Failures\": 7}", "> prompt"}
RECURSIVE Lines(_, _)
Lines(k, s) == IF k = 0 THEN <<>> ELSE <<Pick(Texts) \o (IF s > 90 THEN "!" ELSE "")>> \o Lines(k - 1, s)
\* failing in several ways, sometimes all or none
One(i, mood, s) ==
  TLCEval([p |-> Pkgs[i],
   lrc |-> IF mood = 0 \/ (mood = 1 /\ Odds(25)) THEN Pick({1, 2, 139, 0 - 9, 0 - 15}) ELSE 0 * s,
   iok |-> Odds(80), lq |-> Odds(35), ld |-> Pick({0, 0, 0, 4, 12, 30}), out |-> Lines(Pick({0, 0, 1, 2, 3}), s), err |-> Lines(Pick({0, 0, 0, 1, 2}), s)])
RECURSIVE All(_, _, _)
All(i, mood, s) == IF i > Len(Pkgs) THEN <<>> ELSE <<One(i, mood, i + s)>> \o All(i + 1, mood, s)
Init == stage = 0 /\ t = <<>>
Next ==
  \/ stage = 0 /\ stage' = 1 /\ t' = TLCEval(LET m == Pick(0..5 + 0 * stage) IN All(1, IF m = 0 THEN 0 ELSE IF m = 5 THEN 2 ELSE 1, stage))
  \/ stage = 1 /\ stage' = 2 /\ UNCHANGED t
     /\ PrintT("SCN " \o ToJson([t |-> t, dupl |-> Odds(25), threads |-> Pick({1, 1, 2, 3, 0, -1, -2, 5}), procs |-> Pick({1, 2, 3, 4})]))
ProfLoad == [x |-> 0]
=============================================================================
