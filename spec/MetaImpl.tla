------------------------------ MODULE MetaImpl ------------------------------
(* How the DESCRIPTION of an installed package is stamped, field by field, and   *)
(* that this meets Meta for every DESCRIPTION of up to L fields, also when a       *)
(* package is installed again by another run, from another repository.             *)
EXTENDS Meta, TLC
CONSTANTS L
VARIABLES orig, d, times, by
vars == <<orig, d, times, by>>
F(n, v) == [n |-> n, v |-> v]
Fields == {F("Package", "p"), F("Repository", "CRAN"), F("Repository", "MPN"), F("OriginalRepository", "X"), F("PkgrVersion", "0"), F("PkgrInstallType", "binary"), F("Other", "x")}
Runs == {[version |-> "1", type |-> "source", url |-> "u", repo |-> "CRAN"], [version |-> "2", type |-> "binary", url |-> "v", repo |-> "MPN"]}
RECURSIVE Walk(_, _, _)
Walk(s, r, replace) ==
  IF s = <<>> THEN <<>>
  ELSE LET x == Head(s) IN
    (IF x.n \in Stamp \/ (replace /\ x.n = "OriginalRepository") THEN <<>>
     ELSE IF x.n = "Repository" /\ x.v # r.repo THEN <<F("OriginalRepository", x.v), F("Repository", r.repo)>>
     ELSE <<x>>) \o Walk(Tail(s), r, replace)
Stamped(s, r) ==
  Walk(s, r, \E i \in DOMAIN s : s[i].n = "Repository" /\ s[i].v # r.repo)
  \o <<F("PkgrVersion", r.version), F("PkgrInstallType", r.type), F("PkgrRepositoryURL", r.url)>>
\* DESCRIPTION files name a field once
Proper(s) == \A i, j \in DOMAIN s : s[i].n = s[j].n => i = j
Init == orig \in {s \in UNION {[1..n -> Fields] : n \in 1..L} : Proper(s)} /\ d = orig /\ times = 0 /\ by = [version |-> "-"]
Next == /\ times < 2 /\ times' = times + 1 /\ by' \in Runs
        /\ orig' = d /\ d' = Stamped(d, by')
Spec == Init /\ [][Next]_vars
Right == times > 0 => MetaOK(orig, d, by.version, by.type, by.url, by.repo)
StaysProper == Proper(d)
=============================================================================
