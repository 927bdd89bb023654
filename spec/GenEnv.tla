------------------------------- MODULE GenEnv -------------------------------
(***************************************************************************)
(* Environments and per-package variables for install runs.                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT Profile
VARIABLES stage, inh, cust
Pick(S) == RandomElement(S)
Odds(p) == RandomElement(1..100) <= p
NamesPool == {"FOO", "BAR", "foo", "MAKEFLAGS", "R_LIBS_USER", "R_LIBS_SITE", "github_token", "GITHUB_PAT", "GHE_Pat", "AWS_SECRET_KEY",
              "PKG_CFLAGS", "R_HOME", "_UNDER", "R_LIBS_USER2", "XPATH", "GITHUB_PATH"}
ValuesPool == {"", "v1", "other", " lead", "trail ", "a=b=c", "=", "x:y:z", "two words", "'q' \"d\"", "-O2 -I/usr/include", "/nonexistent/lib"}
CustNames == {"FOO", "BAR", "MAKEFLAGS", "foo", "OnlyHere", "R_HOME", "GITHUB_PAT"}
CustValues == {"", "mine", "a=b", "two words", "x:y", "v1", "0", "true", "null"}
Pkgs == {"pa", "pb", "pc", "pd", "pe", "tb1", "tb2"}
PathKinds == {"plain", "led", "prefix", "second", "slash"}
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == TLCEval(Pick(S)) IN <<x>> \o SetSeq(S \ {x})
Vars(S, o, V) == TLCEval(LET T == TLCEval({n \in S : Odds(o)}) sq == TLCEval(SetSeq(T)) IN [i \in DOMAIN sq |-> [n |-> sq[i], v |-> Pick(V)]])
\* (the argument keeps TLC from computing it once and for all)
CustFor(s) == TLCEval(LET P == TLCEval({p \in Pkgs : Odds(55 + 0 * s)}) sq == TLCEval(SetSeq(P))
                      IN [i \in DOMAIN sq |-> [pkg |-> sq[i], env |-> Vars(CustNames, 35 + 0 * s, CustValues)]])
Init == stage = 0 /\ inh = <<>> /\ cust = <<>>
Next ==
  \/ stage = 0 /\ stage' = 1 /\ inh' = Vars(NamesPool, 40 + 0 * stage, ValuesPool) /\ UNCHANGED cust
  \/ stage = 1 /\ stage' = 2 /\ UNCHANGED inh
     /\ cust' = CustFor(stage)
  \/ stage = 2 /\ stage' = 3 /\ UNCHANGED <<inh, cust>>
     /\ PrintT("SCN " \o ToJson([inh |-> inh, cust |-> cust, path |-> Pick(PathKinds), run |-> Pick(Pkgs)]))
ProfEnv == [x |-> 0]
=============================================================================
