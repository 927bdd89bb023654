------------------------------- MODULE GenDb -------------------------------
(***************************************************************************)
(* Histories of runs over remembered package databases: configurations that  *)
(* differ in one or few respects, repositories that change or fail, time that *)
(* passes, damaged files, cleaning.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Profile
VARIABLES stage, confs, kinds, steps
gvars == <<stage, confs, kinds, steps>>
Pick(S) == RandomElement(S)
Odds(p) == RandomElement(1..100) <= p
Names == <<"RA", "RAx", "RB">>
Locs == {"la1", "LA1", "la12"}

RandEntry(nm, s) ==
  LET loc == TLCEval(Pick({x \in Locs : s >= 0})) IN
  TLCEval([name |-> nm, loc |-> loc, slash |-> IF Odds(15) THEN "/" ELSE "", suffix |-> Pick({"", "", "s1", "2"}),
           rtype |-> IF Odds(65) THEN "MPN" ELSE "", dtype |-> Pick({"", "", "source"})])
Conf(s) ==
  LET n == TLCEval(Pick(1..3 + 0 * s))
      off == TLCEval(Pick(0..2 + 0 * s))
  IN TLCEval([i \in 1..n |-> RandEntry(Names[((i + off) % 3) + 1], s)])
\* a configuration that differs in one respect
Vary(c) ==
  LET i == TLCEval(Pick(DOMAIN c))
      k == TLCEval(Pick(1..9 + 0 * Len(c)))
      j == TLCEval(Pick(DOMAIN c))
      free == {Names[x] : x \in 1..3} \ {c[x].name : x \in DOMAIN c}
  IN TLCEval(CASE k = 1 -> [c EXCEPT ![i].loc = Pick(Locs \ {@})]
      [] k = 2 -> [c EXCEPT ![i].slash = IF @ = "" THEN "/" ELSE ""]
      [] k = 3 -> [c EXCEPT ![i].suffix = Pick({"", "s1", "2"} \ {@})]
      [] k = 4 -> [c EXCEPT ![i].rtype = IF @ = "" THEN "MPN" ELSE ""]
      [] k = 5 -> [[c EXCEPT ![i].loc = c[j].loc] EXCEPT ![j].loc = c[i].loc]
      [] k = 6 -> IF free = {} THEN [c EXCEPT ![i].dtype = IF @ = "" THEN "source" ELSE ""] ELSE [c EXCEPT ![i].name = Pick(free)]
      [] k = 7 -> [x \in DOMAIN c |-> c[Len(c) + 1 - x]]
      \* the same address but for the case of its letters
      [] OTHER -> [c EXCEPT ![i].loc = IF @ = "la1" THEN "LA1" ELSE "la1"])
RECURSIVE Confs(_, _)
Confs(acc, n) == IF Len(acc) >= n THEN acc ELSE Confs(Append(acc, IF Odds(75) THEN TLCEval(Vary(acc[Pick(DOMAIN acc)])) ELSE Conf(Len(acc))), n)

RVers == {<<4, 1, 2>>, <<4, 1, 3>>, <<4, 2, 0>>}
Ttls == {"", "", "", "1000", "abc", "0", "-5"}
State(p) == IF Odds(p) THEN Pick({0, -1}) ELSE 1
StepOf(nc, rvs, s) ==
  LET x == TLCEval(Pick(1..100 + 0 * s)) IN
  TLCEval(CASE x <= 20 -> [e |-> "publish", loc |-> Pick(Locs), src |-> State(Profile.bad), bin |-> State(Profile.bad)]
      [] x <= 32 -> [e |-> "age", secs |-> Pick({410, 1230, 3010, 4100})]
      [] x <= 32 + Profile.damage -> [e |-> "damage", how |-> Pick({"cut", "empty", "garbage", "flip"})]
      [] x <= 32 + Profile.damage + Profile.clean -> [e |-> "clean", conf |-> Pick(1..nc), rver |-> Pick(rvs), all |-> Odds(30), viaall |-> Odds(30),
             names |-> Pick({<<"RA">>, <<"RAx">>, <<"RB">>, <<"RA", "RB">>, <<"RAx", "RA">>, <<"R">>, <<"">>, <<"HUB">>, <<"RB", "nowhere">>, <<"ra">>})]
      [] OTHER -> [e |-> "plan", conf |-> Pick(1..nc), rver |-> Pick(rvs), ttl |-> Pick(Ttls), par |-> Odds(Profile.par)])
PlanStep(c, rv, ttl) == [e |-> "plan", conf |-> c, rver |-> rv, ttl |-> ttl, par |-> FALSE]
\* a run, a change of what a repository answers, some time, the same run again with a lifetime of its own
Cycle(nc, rvs, s) ==
  LET c == TLCEval(Pick(1..nc + 0 * s)) rv == TLCEval(Pick(rvs)) IN
  TLCEval(<<PlanStep(c, rv, "0"), [e |-> "publish", loc |-> confs[c][Pick(DOMAIN confs[c])].loc, src |-> 1, bin |-> 1],
            [e |-> "age", secs |-> Pick({410, 1230, 3010, 4100})], PlanStep(c, rv, Pick({"", "1000", "abc", "2500", "6000"}))>>)
\* two configurations one after the other
Pair(nc, rvs, s) == LET rv == TLCEval(Pick(rvs)) c == TLCEval(Pick(1..nc + 0 * s)) IN
  TLCEval(<<PlanStep(c, rv, ""), PlanStep(((c + s) % nc) + 1, rv, "")>>)
RECURSIVE Steps(_, _, _)
Steps(n, nc, rvs) ==
  IF n <= 0 THEN <<>>
  ELSE LET k == TLCEval(Pick(1..100 + 0 * n)) IN
       IF k <= 8 THEN Cycle(nc, rvs, n) \o Steps(n - 4, nc, rvs)
       ELSE IF k <= 18 THEN Pair(nc, rvs, n) \o Steps(n - 2, nc, rvs)
       ELSE <<StepOf(nc, rvs, n)>> \o Steps(n - 1, nc, rvs)

Init == stage = 0 /\ confs = <<>> /\ kinds = <<>> /\ steps = <<>>
Next ==
  \/ stage = 0 /\ stage' = 1 /\ confs' = TLCEval(Confs(<<Conf(stage)>>, Pick(1..3))) /\ UNCHANGED <<kinds, steps>>
  \/ stage = 1 /\ stage' = 2 /\ kinds' = TLCEval([l \in {x \in Locs : stage > 0} |-> IF Odds(40) THEN "http" ELSE "file"]) /\ UNCHANGED <<confs, steps>>
  \/ stage = 2 /\ stage' = 3 /\ UNCHANGED <<confs, kinds>>
     /\ steps' = TLCEval(LET one == Odds(55 + 0 * stage) rv == TLCEval(Pick(RVers)) IN
                         Steps(Profile.len, Len(confs), IF one THEN {rv} ELSE IF Odds(50) THEN {rv, Pick(RVers)} ELSE RVers))
  \/ stage = 3 /\ stage' = 4 /\ UNCHANGED <<confs, kinds, steps>> /\ PrintT("SCN " \o ToJson([confs |-> confs, kinds |-> kinds, steps |-> steps]))
ProfDb == [bad |-> 22, damage |-> 7, clean |-> 0, par |-> 8, len |-> 18]
ProfClean == [bad |-> 8, damage |-> 2, clean |-> 22, par |-> 0, len |-> 14]
=============================================================================
