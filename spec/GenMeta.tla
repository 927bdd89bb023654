------------------------------ MODULE GenMeta ------------------------------
(***************************************************************************)
(* Extra DESCRIPTION fields of packages: what others left there, and fields  *)
(* that merely look like what pkgr writes.                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT Profile
VARIABLES stage, f
Pick(S) == RandomElement(S)
Odds(p) == RandomElement(1..100) <= p
Repos == {"CRAN", "RA", "RB", "https://host.example:8080/a/b", "My Repo", "RA2", "R"}
\* [n, v, fold]: fold puts the value on continuation lines
One(s) ==
  LET k == TLCEval(Pick(1..12 + 0 * s)) IN
  TLCEval(CASE k = 1 -> <<[n |-> "Repository", v |-> Pick(Repos)]>>
    [] k = 2 -> <<[n |-> "Repository", v |-> Pick(Repos)]>>
    [] k = 3 -> <<[n |-> "PkgrVersion", v |-> "0.0.1"]>>
    [] k = 4 -> <<[n |-> "PkgrInstallType", v |-> Pick({"source", "binary"})]>>
    [] k = 5 -> <<[n |-> "PkgrRepositoryURL", v |-> "http://old.example/repo"]>>
    [] k = 6 -> <<[n |-> "Description", v |-> Pick({"see PkgrVersion: and PkgrInstallType: there", "from Repository: X", "PkgrRepositoryURL", "Repository"})]>>
    [] k = 7 -> <<[n |-> "Note", v |-> "first\n    PkgrVersion: 9\n    Repository: Y"]>>
    [] k = 8 -> <<[n |-> "RepositoryURL", v |-> "x: y"]>>
    [] k = 9 -> <<[n |-> "OriginalRepository", v |-> Pick(Repos)]>>
    [] k = 10 -> <<[n |-> "Date/Publication", v |-> "2020-01-01 10:00:00 UTC"]>>
    [] k = 11 -> <<[n |-> "Collate", v |-> "LONG"]>>
    [] OTHER -> <<[n |-> "MyPkgrVersion", v |-> "3"]>>)
RECURSIVE Fields(_, _, _)
Fields(k, used, s) ==
  IF k = 0 THEN <<>>
  ELSE LET x == TLCEval(One(k + s)) IN
       IF x[1].n \in used THEN Fields(k - 1, used, s) ELSE x \o Fields(k - 1, used \cup {x[1].n}, s)
Pkgs == <<"pa", "pb", "pc", "pd", "pe", "pf", "pg", "tb1", "tb2", "Matrix", "MASS">>
RECURSIVE All(_, _)
All(i, s) == IF i > Len(Pkgs) THEN <<>> ELSE <<[pkg |-> Pkgs[i], fields |-> Fields(Pick(0..6 + 0 * s), {}, i + s)]>> \o All(i + 1, s)
Init == stage = 0 /\ f = <<>>
Next ==
  \/ stage = 0 /\ stage' = 1 /\ f' = TLCEval(All(1, stage))
  \/ stage = 1 /\ stage' = 2 /\ UNCHANGED f /\ PrintT("SCN " \o ToJson([f |-> f]))
ProfMeta == [x |-> 0]
=============================================================================
