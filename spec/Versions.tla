------------------------------ MODULE Versions ------------------------------
(***************************************************************************)
(* R package versions: sequences of natural numbers, compared component by  *)
(* component; a missing component counts as zero.  Requirements on R.        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

Comp(v, i) == IF i <= Len(v) THEN v[i] ELSE 0

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==
  IF i > Len(a) /\ i > Len(b) THEN 0
  ELSE IF Comp(a, i) < Comp(b, i) THEN -1
  ELSE IF Comp(a, i) > Comp(b, i) THEN 1
  ELSE CmpFrom(a, b, i + 1)

Cmp(a, b) == CmpFrom(a, b, 1)
Older(a, b) == Cmp(a, b) < 0

\* A requirement is [op |-> "none" | "bare" | ">=" | ">" | "<" | "<=" | "==" | "!=", vn |-> version].
\* "none": the record does not mention R; "bare": it depends on R without a version.
Satisfies(rver, rc) ==
  CASE rc.op = "none" -> TRUE
    [] rc.op = "bare" -> TRUE
    [] rc.op = ">="   -> Cmp(rver, rc.vn) >= 0
    [] rc.op = ">"    -> Cmp(rver, rc.vn) > 0
    [] rc.op = "<"    -> Cmp(rver, rc.vn) < 0
    [] rc.op = "<="   -> Cmp(rver, rc.vn) <= 0
    [] rc.op = "=="   -> Cmp(rver, rc.vn) = 0
    [] rc.op = "!="   -> Cmp(rver, rc.vn) # 0
=============================================================================
