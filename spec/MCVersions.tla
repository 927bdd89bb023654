----------------------------- MODULE MCVersions -----------------------------
(* Versions over all versions of up to L components, each at most M: the order *)
(* is a total preorder, dots and dashes play no part, missing components are    *)
(* zero, and the five operators are what they say.                               *)
EXTENDS Versions, FiniteSets
CONSTANTS L, M
VARIABLES a, b, c
V == UNION {[1..n -> 0..M] : n \in 1..L}
Init == a \in V /\ b \in V /\ c \in V
Next == UNCHANGED <<a, b, c>>
Spec == Init /\ [][Next]_<<a, b, c>>
Rq(op, v) == [op |-> op, vn |-> v]
Pad(v) == [i \in 1..L |-> Comp(v, i)]
\* a number that orders versions the same way
RECURSIVE Num(_, _)
Num(v, i) == IF i > L THEN 0 ELSE Comp(v, i) * ((M + 1) ^ (L - i)) + Num(v, i + 1)
Antisymmetric == Cmp(a, b) = -Cmp(b, a)
Transitive == Older(a, b) /\ Older(b, c) => Older(a, c)
SameWhenPadded == (Cmp(a, b) = 0) = (Pad(a) = Pad(b))
LikeNumbers == Older(a, b) = (Num(a, 1) < Num(b, 1))
Operators ==
  /\ Satisfies(a, Rq(">=", b)) = ~Satisfies(a, Rq("<", b))
  /\ Satisfies(a, Rq("<=", b)) = ~Satisfies(a, Rq(">", b))
  /\ Satisfies(a, Rq("==", b)) = (Satisfies(a, Rq(">=", b)) /\ Satisfies(a, Rq("<=", b)))
  /\ Satisfies(a, Rq("!=", b)) = ~Satisfies(a, Rq("==", b))
  /\ Satisfies(a, Rq(">", b)) = Older(b, a)
  /\ Satisfies(a, Rq("bare", b)) /\ Satisfies(a, Rq("none", b))
=============================================================================
