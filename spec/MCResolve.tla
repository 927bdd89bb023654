------------------------------ MODULE MCResolve ------------------------------
(* PlanOf over every small world, against descriptions of its answer that do   *)
(* not mention how it is computed.  Dims chooses what varies:                  *)
(*   "graph"   one repository; every dependency relation (Imports, Suggests),   *)
(*             requests, what is ignored                                         *)
(*   "graph3"  the same without Suggests and base packages                        *)
(*   "origin"  two repositories with every availability per type, default types,  *)
(*             customizations and requirements on R; a fixed small relation        *)
EXTENDS Resolve, Inspect
CONSTANTS Dims, Names
VARIABLES w, c
vars == <<w, c>>
None == [op |-> "none", vn |-> <<0>>, str |-> ""]
NeedsNewR == [op |-> ">=", vn |-> <<4, 2>>, str |-> ""]
RECURSIVE Sorted(_)
SeqOf(S) == LET RECURSIVE go(_) go(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o go(T \ {x}) IN go(S)
Sorted(S) == SeqOf(S)
Rec(p, imp, sug, rc, v) == [pkg |-> p, ver |-> v, vn |-> IF v = "1" THEN <<1>> ELSE <<2>>, dep |-> <<>>, imp |-> SeqOf(imp), lnk |-> <<>>, sug |-> SeqOf(sug), rc |-> rc, path |-> ""]
Conf(pk, ig, sg, cu) == [packages |-> SeqOf(pk), ignore |-> SeqOf(ig), suggests |-> sg, norec |-> FALSE, cust |-> cu, tarballs |-> <<>>, descs |-> <<>>]
Repo(n, o, t, d, s, b) == [name |-> n, oid |-> o, boid |-> o, rtype |-> t, dtype |-> d, src |-> s, bin |-> b]
All == Names \cup {"stats"}
GraphInit ==
  \E imp \in [Names -> SUBSET All], sug \in [Names -> SUBSET Names], have \in SUBSET Names :
  \E pk \in SUBSET Names, ig \in SUBSET Names, sg \in BOOLEAN :
    /\ \A p \in Names : Cardinality(sug[p]) <= 1
    /\ Cardinality(ig) <= 1
    /\ (sg = FALSE => \A p \in Names : sug[p] = {})
    /\ w = [rver |-> <<4, 1, 2>>, repos |-> <<Repo("R1", "O1", "", "", LET h == SeqOf(have) IN [i \in DOMAIN h |-> Rec(h[i], imp[h[i]], sug[h[i]], None, "1")], <<>>)>>]
    /\ c = Conf(pk, ig, sg, <<>>)
\* availability of every package per repository and type: "no", "v1", "v2" (which needs a newer R)
Avail == [Names -> {"no", "v1", "new"}]
List(av, v) == LET h == SeqOf({p \in Names : av[p] # "no"}) IN [i \in DOMAIN h |-> Rec(h[i], {}, {}, IF av[h[i]] = "new" THEN NeedsNewR ELSE None, v)]
OriginInit ==
  \E s1, s2, b1, b2 \in Avail, t1, t2 \in {"", "MPN"}, d1, d2 \in {"", "source", "binary"} :
  \E cr \in {"", "R1", "R2"}, ct \in {"", "source", "binary"} :
    /\ w = [rver |-> <<4, 1, 2>>, repos |-> <<Repo("R1", "O1", t1, d1, List(s1, "1"), List(b1, "1")), Repo("R2", "O2", t2, d2, List(s2, "2"), List(b2, "2"))>>]
    /\ c = Conf(Names, {}, FALSE, IF cr = "" /\ ct = "" THEN <<>> ELSE <<[pkg |-> CHOOSE p \in Names : TRUE, repo |-> cr, type |-> ct, sug |-> ""]>>)
Graph3Init ==
  \E imp \in [Names -> SUBSET Names], have, pk \in SUBSET Names, ig \in {{}} \cup {{p} : p \in Names} :
    /\ w = [rver |-> <<4, 1, 2>>, repos |-> <<Repo("R1", "O1", "", "", LET h == SeqOf(have) IN [i \in DOMAIN h |-> Rec(h[i], imp[h[i]], {}, None, "1")], <<>>)>>]
    /\ c = Conf(pk, ig, FALSE, <<>>)
Init == CASE Dims = "graph" -> GraphInit [] Dims = "graph3" -> Graph3Init [] Dims = "origin" -> OriginInit
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Pl == PlanOf(w, c)
On(p) == Select(w, c, p)
Avl(p) == On(p).found
\* what p brings with it
Brings(p) == {d \in HardDeps(On(p).rec) \cup (IF SuggestsOn(c, p) THEN Range(On(p).rec.sug) ELSE {}) : Avl(d) /\ ~Excluded(c, d)}
Closed(S) == \A p \in S : Avl(p) => Brings(p) \subseteq S
PlanIsLeast ==
  IF \E p \in Requested(c) : ~Avl(p) THEN Pl.missing = {p \in Requested(c) : ~Avl(p)} /\ ~Pl.ok
  ELSE /\ Pl.missing = {} /\ Requested(c) \subseteq Pl.plan /\ Closed(Pl.plan)
       /\ \A S \in SUBSET Names : Requested(c) \subseteq S /\ Closed(S) => Pl.plan \subseteq S
NothingForbidden == \A p \in Pl.plan : p \notin Range(c.ignore) /\ p \notin BasePkgs
\* a cycle is a way from a package back to itself
Hard(p) == {d \in HardDeps(On(p).rec) : Avl(d) /\ ~Excluded(c, d)}
CycleFound == Pl.missing = {} =>
  (Pl.cyclic = \E n \in 1..Cardinality(Names), way \in UNION {[1..m -> Names] : m \in 1..Cardinality(Names)} :
      Len(way) = n /\ (\A i \in 1..n : way[i] \in Pl.plan) /\ (\A i \in 1..(n - 1) : way[i + 1] \in Hard(way[i])) /\ way[1] \in Hard(way[n]))
NeedsAreReached == Pl.ok => \A p \in Pl.plan : Pl.needs[p] = Hard(p) \cup UNION {Pl.needs[d] : d \in Hard(p)}
\* inspection: the reverse listing is the inverse of the listing
Inverse == Pl.ok => \A p, q \in Pl.plan :
   (p \in DOMAIN DepsOf(Pl) /\ q \in DepsOf(Pl)[p]) = (q \in DOMAIN RevOf(Pl) /\ p \in RevOf(Pl)[q])
\* an order in which everything can be installed exists
Orderly == Pl.ok => \A S \in SUBSET Pl.plan : S # {} => \E p \in S : Pl.needs[p] \cap S = {}

\* origins, put directly: repositories in order, each in the type that applies
TypeIn(r, p) ==
  IF \E k \in DOMAIN c.cust : c.cust[k].pkg = p /\ c.cust[k].type # "" THEN c.cust[1].type
  ELSE IF r.dtype # "" THEN r.dtype ELSE IF r.rtype = "MPN" THEN "binary" ELSE "source"
Has(r, p) ==
  LET l == IF TypeIn(r, p) = "source" THEN r.src ELSE IF r.rtype = "MPN" THEN r.bin ELSE <<>>
  IN \E i \in DOMAIN l : l[i].pkg = p /\ l[i].rc.op = "none"
May(r, p) == \A k \in DOMAIN c.cust : c.cust[k].pkg = p /\ c.cust[k].repo # "" => c.cust[k].repo = r.name
Picked(p) == IF May(w.repos[1], p) /\ Has(w.repos[1], p) THEN 1 ELSE IF Len(w.repos) > 1 /\ May(w.repos[2], p) /\ Has(w.repos[2], p) THEN 2 ELSE 0
RightOrigin == \A p \in Names \ Range(c.ignore) :
  IF Picked(p) = 0 THEN ~Avl(p)
  ELSE Avl(p) /\ On(p).repo = w.repos[Picked(p)].name /\ On(p).type = TypeIn(w.repos[Picked(p)], p) /\ On(p).rec.rc.op = "none"
=============================================================================
