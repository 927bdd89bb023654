----------------------------- MODULE GenSecure -----------------------------
(* Repositories behind servers of several kinds, and runs against them.      *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT Profile
VARIABLES stage, s
Pick(S) == RandomElement(S)
Odds(p) == RandomElement(1..100) <= p
Bad == {"wrong", "expired", "future", "self", "stranger"}
TlsKind(odds) == IF Odds(odds) THEN "good" ELSE Pick(Bad)
\* the scheme of a repository stays, what its servers show may change between runs
Schemes(n) == LET k == TLCEval(Pick(1..3 + 0 * n)) IN TLCEval([i \in 1..k |-> TLCEval([front |-> IF Odds(85) THEN "tls" ELSE "plain", back |-> IF Odds(25) THEN (IF Odds(80) THEN "tls" ELSE "plain") ELSE ""])])
Kind(scheme, odds) == IF scheme = "tls" THEN TLCEval(TlsKind(odds)) ELSE scheme
Run(sch, j) ==
  LET odds == TLCEval(Pick({100, 85, 60, 30 + 0 * j}))
      file == TLCEval(IF Odds(35) THEN Pick({"on", "off"}) ELSE "")
  IN TLCEval([cmd |-> IF Odds(70) THEN "install" ELSE "plan", file |-> file, flag |-> IF Odds(35) THEN Pick({"on", "off"}) ELSE "", trusted |-> Odds(75),
      kinds |-> [i \in DOMAIN sch |-> TLCEval([front |-> Kind(sch[i].front, odds), back |-> Kind(sch[i].back, odds)])],
      forget |-> Odds(30), empty |-> Odds(25)])
Gen(n) == LET sch == Schemes(n) IN TLCEval([schemes |-> sch, runs |-> [j \in 1..Pick(2..4) |-> Run(sch, j)]])
Init == stage = 0 /\ s = <<>>
Next ==
  \/ stage = 0 /\ stage' = 1 /\ s' = Gen(stage)
  \/ stage = 1 /\ stage' = 2 /\ UNCHANGED s /\ PrintT("SCN " \o ToJson(s))
ProfSecure == [x |-> 0]
=============================================================================
