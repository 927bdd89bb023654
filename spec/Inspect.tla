------------------------------ MODULE Inspect ------------------------------
(***************************************************************************)
(* The dependency listings of "pkgr inspect --deps", as functions of a plan. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

\* package -> its direct and indirect hard dependencies within the plan
DepsOf(pl) == [p \in {q \in pl.plan : pl.needs[q] # {}} |-> pl.needs[p]]
\* package -> the packages that need it
RevOf(pl) ==
  LET users(p) == {q \in pl.plan : p \in pl.needs[q]}
  IN [p \in {q \in pl.plan : users(q) # {}} |-> users(p)]

Restrict(f, S) == [p \in DOMAIN f \cap S |-> f[p]]

\* a listing as printed: sequence of [p, ds]; a named package without entry may be listed as empty
Entries(s) == {s[k].p : k \in {j \in DOMAIN s : s[j].ds # <<>>}}
EntryOf(s, p) == s[CHOOSE k \in DOMAIN s : s[k].p = p]
SetOf(s) == {s[k] : k \in DOMAIN s}
SameListing(s, f) ==
  /\ Entries(s) = DOMAIN f
  /\ \A k \in DOMAIN s : s[k].ds # <<>> => SetOf(s[k].ds) = f[s[k].p] /\ Cardinality(SetOf(s[k].ds)) = Len(s[k].ds)
  /\ \A j, k \in DOMAIN s : s[j].p = s[k].p => j = k

\* a tree: its roots and its nodes (sequence of [p, ds], one per occurrence)
SameTree(roots, nodes, pl, rootset) ==
  /\ SetOf(roots) = rootset /\ Cardinality(rootset) = Len(roots)
  /\ \A k \in DOMAIN nodes : nodes[k].p \in pl.plan =>
        SetOf(nodes[k].ds) = pl.needs[nodes[k].p] /\ Cardinality(SetOf(nodes[k].ds)) = Len(nodes[k].ds)
  /\ \A k \in DOMAIN nodes : nodes[k].p \notin pl.plan => nodes[k].ds = <<>>

InspectOK(pl, e) ==
  ~pl.ok \/
  LET named == SetOf(e.named)
      pick(f) == IF named = {} THEN f ELSE Restrict(f, named)
  IN e.parsed /\
     CASE e.mode = "deps"    -> SameListing(e.out, pick(DepsOf(pl)))
       [] e.mode = "reverse" -> SameListing(e.out, pick(RevOf(pl)))
       [] e.mode = "tree"    -> SameTree(e.roots, e.out, pl, IF named = {} THEN DOMAIN DepsOf(pl) ELSE named)
=============================================================================
