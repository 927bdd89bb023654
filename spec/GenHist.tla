------------------------------ MODULE GenHist ------------------------------
(***************************************************************************)
(* Trouble for histories of runs: where a run is cut off, and which          *)
(* transfers and builds fail.                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT Profile
VARIABLES stage, f
Pick(S) == RandomElement(S)
Odds(p) == RandomElement(1..100) <= p
Names == {"pa", "pb", "pc", "pd", "pe", "pf", "tb1", "tb2", "Matrix", "MASS"}
\* fs: at a change of the file system (at in permille of those an undisturbed run makes);
\* call: at the beginning or end of an R call
Cut(s) == TLCEval([how |-> Pick(IF Odds(Profile.calls) THEN {"call"} ELSE {"fs"}), at |-> Pick(1..1000 + 0 * s),
                   mode |-> Pick({"kill", "kill", "after", "torn"}), post |-> Odds(50)])
Kinds == {"404", "403", "500", "503", "reset", "short", "none", "202", "206", "204", "300", "redir404", "chunkcut", "empty", "longer"}
\* faults: files of packages, databases of repositories (by position), failing builds
Fault(s) ==
  TLCEval([pkgs |-> [p \in {q \in Names : Odds(Profile.bad + 0 * s)} |->
             \* any file of the package, only its binary or source package, or only what is asked for first
             [kind |-> Pick(Kinds), only |-> Pick({"pkg", "pkg", "bin", "src", "first"})]],
           dbs |-> [k \in {ToString(q) : q \in {x \in 1..3 : Odds(Profile.baddb + 0 * s)}} |-> Pick(Kinds \ {"204", "empty", "longer"})],
           builds |-> [p \in {q \in Names : Odds(Profile.fail + 0 * s)} |-> Pick({"fail", "nobin", "instfail", "debris"})]])
RECURSIVE Seq1(_, _)
Seq1(k, s) == IF k = 0 THEN <<>> ELSE <<[cut |-> Cut(k + s), fault |-> Fault(k + s), kind |-> IF Odds(Profile.cuts) THEN "cut" ELSE "faulty"]>> \o Seq1(k - 1, s)
Init == stage = 0 /\ f = <<>>
Next ==
  \/ stage = 0 /\ stage' = 1 /\ f' = TLCEval(Seq1(IF Odds(Profile.many) THEN Pick(2..3) ELSE 1, stage))
  \/ stage = 1 /\ stage' = 2 /\ UNCHANGED f /\ PrintT("SCN " \o ToJson([f |-> f]))
ProfCut == [cuts |-> 100, calls |-> 25, bad |-> 0, baddb |-> 0, fail |-> 0, many |-> 25]
ProfFaulty == [cuts |-> 0, calls |-> 0, bad |-> 25, baddb |-> 12, fail |-> 12, many |-> 30]
ProfBoth == [cuts |-> 50, calls |-> 30, bad |-> 15, baddb |-> 8, fail |-> 10, many |-> 60]
=============================================================================
