------------------------------- MODULE GenTar -------------------------------
(***************************************************************************)
(* What happens to the configured tarballs (by position) between runs: their *)
(* version, content and form, and what is wrong with them.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT Profile
VARIABLES stage, f
Pick(S) == RandomElement(S)
Odds(p) == RandomElement(1..100) <= p
Good == {"gz", "dirs", "dot", "pax", "gnu", "stored", "big", "exec", "xz", "bz2", "extra", "long", "nodirs", "late", "multi", "tar"}
Bad == {"missing", "empty", "garbage", "trunc", "trunc", "tartrunc", "dir", "nodesc", "flat", "page",
        "dotdot", "dotdot2", "abs", "symfile", "symdir", "symabs", "hardlink", "fifo", "deep", "dup"}
\* ver: which of three versions; cid: which content; same: the form of the one before
Tar(s) == TLCEval([ver |-> Pick({0, 0, 0, 1, 2 + 0 * s}), cid |-> Pick(1..3), form |-> Pick(Good), same |-> Odds(55), cut |-> Pick(5..80),
                   bad |-> IF Odds(Profile.bad) THEN Pick(Bad) ELSE "", nodep |-> Odds(15)])
\* change: which tarballs change before the run
Step(s) == TLCEval([tars |-> <<Tar(s), Tar(s)>>, change |-> <<Odds(60 + 0 * s), Odds(40)>>, keep |-> Odds(70),
                    cmd |-> Pick({"install", "install", "install", "plan", "cut"}), at |-> Pick(1..1000), both |-> Odds(50)])
RECURSIVE Steps(_)
Steps(n) == IF n = 0 THEN <<>> ELSE <<Step(n)>> \o Steps(n - 1)
Init == stage = 0 /\ f = <<>>
Next ==
  \/ stage = 0 /\ stage' = 1 /\ f' = TLCEval(Steps(Profile.len + stage))
  \/ stage = 1 /\ stage' = 2 /\ UNCHANGED f /\ PrintT("SCN " \o ToJson([f |-> f]))
ProfTars == [bad |-> 15, len |-> 5]
ProfBadTars == [bad |-> 60, len |-> 4]
=============================================================================
