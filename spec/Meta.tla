-------------------------------- MODULE Meta --------------------------------
(***************************************************************************)
(* What pkgr adds to the DESCRIPTION of a package it installed.  A           *)
(* DESCRIPTION is a sequence of fields [n, v].                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Stamp == {"PkgrVersion", "PkgrInstallType", "PkgrRepositoryURL"}
Origin == {"Repository", "OriginalRepository"}
RECURSIVE Without(_, _)
Without(s, S) == IF s = <<>> THEN <<>> ELSE (IF Head(s).n \in S THEN <<>> ELSE <<Head(s)>>) \o Without(Tail(s), S)
Values(s, n) == [i \in {k \in DOMAIN s : s[k].n = n} |-> s[i].v]
Once(s, n, v) == Cardinality(DOMAIN Values(s, n)) = 1 /\ \A i \in DOMAIN Values(s, n) : Values(s, n)[i] = v
Absent(s, n) == DOMAIN Values(s, n) = {}
\* the value of the field's last entry ("" if there is none)
LastOf(s, n) == LET V == Values(s, n) IN IF DOMAIN V = {} THEN "" ELSE V[CHOOSE i \in DOMAIN V : \A j \in DOMAIN V : j <= i]

\* orig: as R left it; fin: as pkgr left it
MetaOK(orig, fin, version, type, url, repo) ==
  /\ Without(fin, Stamp \cup Origin) = Without(orig, Stamp \cup Origin)
  /\ Once(fin, "PkgrVersion", version) /\ Once(fin, "PkgrInstallType", type) /\ Once(fin, "PkgrRepositoryURL", url)
  /\ IF Absent(orig, "Repository") THEN Absent(fin, "Repository")
     ELSE /\ Once(fin, "Repository", repo)
          /\ LastOf(orig, "Repository") # repo => Once(fin, "OriginalRepository", LastOf(orig, "Repository"))
  /\ (Absent(orig, "Repository") \/ LastOf(orig, "Repository") = repo) =>
        LastOf(fin, "OriginalRepository") = LastOf(orig, "OriginalRepository")

\* the packages pkgr installed are those with its mark, the rest are somebody else's; each is named once
Elements(s) == {s[i] : i \in DOMAIN s}
Exactly(s, S) == Elements(s) = S /\ Cardinality(S) = Len(s)
OriginsOK(st, un, outcome, ours, rest) ==
  outcome = "ok" /\ Exactly(ours, Elements(st)) /\ Exactly(rest, Elements(un))
=============================================================================
