----------------------------- MODULE GenConfig -----------------------------
(***************************************************************************)
(* Configuration files in many layouts, and histories of edits.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT Profile
VARIABLES stage, lay, ops
Pick(S) == RandomElement(S)
Odds(p) == RandomElement(1..100) <= p
NamePool == {"pa", "paa", "pa.b", "pb", "R6", "data.table", "Pa", "no", "p", "apa", "pab", "Packages", "null"}
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == TLCEval(Pick(S)) IN <<x>> \o SetSeq(S \ {x})
Some(o, s) == TLCEval({n \in NamePool : Odds(o + 0 * s)})
NameSeq(o, s) == TLCEval(LET q == TLCEval(SetSeq(Some(o, s))) IN IF Odds(8) /\ q # <<>> THEN Append(q, q[1]) ELSE q)
\* an entry of a list: quoting, what follows on its line, what precedes it
Deco(s) == TLCEval([quote |-> Pick({0, 0, 1, 2} \cup {0 * s}), tail |-> IF Odds(15) THEN Pick({" # keep", "   ", " # pa", " #- pb"}) ELSE "",
                    above |-> IF Odds(15) THEN Pick({"# note", "#  - pa", "", "    # deep", "#- pb"}) ELSE "-", sp |-> Pick({1, 1, 1, 2, 3}), own |-> Odds(2)])
RECURSIVE Decos(_, _)
Decos(k, s) == IF k = 0 THEN <<>> ELSE <<Deco(k + s)>> \o Decos(k - 1, s)
Entries(o, s) == TLCEval(LET q == TLCEval(NameSeq(o, s)) d == TLCEval(Decos(Len(q), s)) IN [i \in DOMAIN q |-> [name |-> q[i], deco |-> d[i]]])
SectionsPool == {"Ignore", "Custom", "Repos", "Suggests", "Threads", "Logging", "Tarballs", "Comment", "NoUpdate"}
Layout(s) ==
  TLCEval(LET style == TLCEval(Pick({"block", "block", "block", "block2", "flow", "flowml", "null", "absent", "tilde", "nullw", "empty"} \cup {"block"}))
      extra == TLCEval({x \in SectionsPool : Odds(60 + 0 * s)} \cup {"Repos"})
      order == TLCEval(SetSeq(extra \cup {"Packages"}))
  IN [style |-> style, order |-> order, entries |-> Entries(30, s), ignore |-> Entries(25, s), cust |-> SetSeq(Some(25, s)),
      indent |-> Pick({0, 2, 4, 1}), crlf |-> Odds(12), nofinal |-> Odds(15), docstart |-> Odds(15), key |-> Pick({"Packages", "Packages", "packages", "PACKAGES", "'Packages'", "Packages "}),
      keytail |-> IF Odds(15) THEN " # the packages" ELSE "", blanks |-> Odds(40), endcomment |-> IF Odds(30) THEN Pick({"# - pa", "  # end", "#end"}) ELSE "", bom |-> FALSE,
      wide |-> Odds(5), uni |-> Odds(10)])
OneOp(s) == TLCEval([op |-> Pick({"add", "remove"} \cup {"add"}), names |-> LET q == TLCEval(SetSeq(Some(18, s))) IN
              TLCEval(IF q = <<>> THEN <<Pick(NamePool)>> ELSE IF Odds(15) THEN Append(q, q[1]) ELSE q)])
RECURSIVE OpsOf(_, _)
OpsOf(k, s) == IF k = 0 THEN <<>> ELSE <<OneOp(k + s)>> \o OpsOf(k - 1, s)
Init == stage = 0 /\ lay = <<>> /\ ops = <<>>
Next ==
  \/ stage = 0 /\ stage' = 1 /\ lay' = Layout(stage) /\ UNCHANGED ops
  \/ stage = 1 /\ stage' = 2 /\ ops' = TLCEval(OpsOf(Pick(1..4), stage)) /\ UNCHANGED lay
  \/ stage = 2 /\ stage' = 3 /\ UNCHANGED <<lay, ops>> /\ PrintT("SCN " \o ToJson([lay |-> lay, ops |-> ops]))
ProfConfig == [x |-> 0]
=============================================================================
