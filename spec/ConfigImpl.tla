----------------------------- MODULE ConfigImpl -----------------------------
(***************************************************************************)
(* How packages are added to and removed from the lines of a configuration    *)
(* file, and that this is what ConfigFile asks for, for every file of up to L  *)
(* lines.  A line is [k, v]: k is "head" (the key Packages), "key" (another     *)
(* key that begins a list), "item" (an entry of the list it stands in) or          *)
(* "note" (a comment).                                                              *)
(***************************************************************************)
EXTENDS ConfigFile, Integers, TLC
CONSTANTS L, Pkgs
VARIABLES file, prev, op, names
vars == <<file, prev, op, names>>
Line(k, v) == [k |-> k, v |-> v]
Lines == {Line("head", ""), Line("key", "Ignore"), Line("note", "n")} \cup {Line("item", p) : p \in Pkgs}
\* the list a line belongs to: the position of its key, 0 if there is none
Owner(f, i) == LET K == {j \in 1..i : f[j].k \in {"head", "key"}} IN IF K = {} THEN 0 ELSE CHOOSE j \in K : \A x \in K : x <= j
Mine(f, i) == f[i].k = "item" /\ Owner(f, i) # 0 /\ f[Owner(f, i)].k = "head"
\* a list needs a key, and every key stands once; a package is listed once
Good(f) ==
  /\ Cardinality({i \in DOMAIN f : f[i].k = "head"}) <= 1 /\ Cardinality({i \in DOMAIN f : f[i].k = "key"}) <= 1
  /\ \A i \in DOMAIN f : f[i].k = "item" => Owner(f, i) # 0
  /\ \A i, j \in DOMAIN f : f[i].k = "item" /\ f[i] = f[j] /\ Owner(f, i) = Owner(f, j) => i = j
RECURSIVE Picks(_, _)
Picks(f, I) == IF I = {} THEN <<>> ELSE LET i == CHOOSE i \in I : \A j \in I : i <= j IN <<f[i]>> \o Picks(f, I \ {i})
\* how a file is read
Read(f) ==
  LET mine == {i \in DOMAIN f : Mine(f, i)} IN
  [pkgs |-> LET p == Picks(f, mine) IN [i \in DOMAIN p |-> p[i].v],
   has |-> \E i \in DOMAIN f : f[i].k = "head",
   rest |-> LET o == Picks(f, DOMAIN f \ mine) IN [i \in DOMAIN o |-> IF o[i].k = "head" THEN Place ELSE o[i].k \o ":" \o o[i].v],
   raw |-> f, ok |-> Good(f)]
\* adding: after the last entry of the section, else after its key; without the section, at the end
RECURSIVE Fresh(_, _)
Fresh(ns, have) == IF ns = <<>> THEN <<>> ELSE (IF Head(ns) \in have THEN <<>> ELSE <<Head(ns)>>) \o Fresh(Tail(ns), have \cup {Head(ns)})
Items(ns) == [i \in DOMAIN ns |-> Line("item", ns[i])]
Add(f, ns) ==
  LET new == Items(Fresh(ns, {f[i].v : i \in {j \in DOMAIN f : Mine(f, j)}}))
      at == {i \in DOMAIN f : Mine(f, i) \/ f[i].k = "head"}
      last == CHOOSE i \in at : \A j \in at : j <= i
  IN IF new = <<>> THEN f
     ELSE IF at = {} THEN f \o <<Line("head", "")>> \o new
     ELSE SubSeq(f, 1, last) \o new \o SubSeq(f, last + 1, Len(f))
Remove(f, ns) ==
  LET gone == {i \in DOMAIN f : Mine(f, i) /\ \E j \in DOMAIN ns : ns[j] = f[i].v} IN Picks(f, DOMAIN f \ gone)
NameSeqs == UNION {[1..n -> Pkgs] : n \in 1..2}
Init == file \in {f \in UNION {[1..n -> Lines] : n \in 0..L} : Good(f)} /\ prev = file /\ op = "none" /\ names = <<>>
Next == op = "none" /\ prev' = file /\ names' \in NameSeqs /\ op' \in {"add", "remove"} /\ file' = IF op' = "add" THEN Add(file, names') ELSE Remove(file, names')
Spec == Init /\ [][Next]_vars
Right == op # "none" => EditOK(op, names, Read(prev), Read(file))
\* adding what is not there and removing it again changes nothing
Undone == op = "add" /\ (\A i \in DOMAIN names : names[i] \notin {Read(prev).pkgs[j] : j \in DOMAIN Read(prev).pkgs}) => Read(Remove(file, names)).pkgs = Read(prev).pkgs
=============================================================================
