------------------------------ MODULE Resolve ------------------------------
(***************************************************************************)
(* What pkgr must plan: a function of the world (repositories, R version)   *)
(* and the configuration.                                                   *)
(*                                                                          *)
(* world  w: [rver |-> version, repos |-> <<repo>>]                          *)
(* repo     : [name, oid, boid, rtype ("" | "MPN"), dtype ("" | "source" |         *)
(*             "binary"), src |-> <<rec>>, bin |-> <<rec>>]; oid and boid      *)
(*             identify the addresses of source and of binary packages         *)
(* rec      : [pkg, ver, vn, dep, imp, lnk, sug (sequences of names), rc,    *)
(*             path]                                                         *)
(* config c: [packages, ignore, suggests, norec, cust, tarballs, descs, ...] *)
(* cust     : <<[pkg, repo, type, sug ("" | "true" | "false")]>>             *)
(***************************************************************************)
EXTENDS Versions, FiniteSets, TLC

Range(s) == {s[i] : i \in DOMAIN s}

BasePkgs == {"base", "compiler", "datasets", "graphics", "grDevices", "grid", "methods",
             "parallel", "splines", "stats", "stats4", "tcltk", "tools", "utils"}
RecommendedPkgs == {"Matrix", "boot", "class", "cluster", "codetools", "foreign",
             "KernSmooth", "lattice", "MASS", "mgcv", "nlme", "nnet", "rpart", "spatial",
             "survival"}

Excluded(c, p) == p \in BasePkgs \/ (c.norec /\ p \in RecommendedPkgs)

\* ---------------------------------------------------------------- repositories
RepoDefault(r) == IF r.dtype # "" THEN r.dtype ELSE IF r.rtype = "MPN" THEN "binary" ELSE "source"
Recs(r, t) == IF t = "source" THEN r.src ELSE IF r.rtype = "MPN" THEN r.bin ELSE <<>>

\* index of the record of p that counts in a list (0: none); records carrying a Path are special
\* builds and never count
EligibleIdx(w, recs, p) ==
  LET I == {i \in DOMAIN recs : recs[i].pkg = p /\ recs[i].path = "" /\ Satisfies(w.rver, recs[i].rc)}
  IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i

\* ---------------------------------------------------------------- customizations
CustOf(c, p) == {k \in DOMAIN c.cust : c.cust[k].pkg = p}
CustField(c, p, f) ==
  LET K == {k \in CustOf(c, p) : c.cust[k][f] # ""}
  IN IF K = {} THEN "" ELSE c.cust[CHOOSE k \in K : \A j \in K : j <= k][f]

\* a customization that names no repository, or no type, is refused
BadCust(w, c) ==
  \E k \in DOMAIN c.cust : \/ c.cust[k].repo # "" /\ c.cust[k].repo \notin {w.repos[i].name : i \in DOMAIN w.repos}
                          \/ c.cust[k].type \notin {"", "source", "binary"}

TypeFor(c, r, p) == IF CustField(c, p, "type") # "" THEN CustField(c, p, "type") ELSE RepoDefault(r)

\* ---------------------------------------------------------------- selection
Offers(w, c, i, p) ==
  /\ ~ \E k \in DOMAIN c.ignore : c.ignore[k] = p
  /\ CustField(c, p, "repo") \in {"", w.repos[i].name}
  /\ EligibleIdx(w, Recs(w.repos[i], TypeFor(c, w.repos[i], p)), p) # 0

NotFound == [found |-> FALSE]

Select(w, c, p) ==
  LET I == {i \in DOMAIN w.repos : Offers(w, c, i, p)}
  IN IF I = {} THEN NotFound
     ELSE LET i == CHOOSE i \in I : \A j \in I : i <= j
              t == TypeFor(c, w.repos[i], p)
              recs == Recs(w.repos[i], t)
          IN [found |-> TRUE, repo |-> w.repos[i].name, oid |-> IF t = "binary" THEN w.repos[i].boid ELSE w.repos[i].oid, type |-> t,
              rec |-> recs[EligibleIdx(w, recs, p)]]

HardDeps(rec) == Range(rec.dep) \cup Range(rec.imp) \cup Range(rec.lnk)

\* requested packages: configured ones, hard dependencies of tarballs, all dependencies of
\* DESCRIPTION files; base packages are dropped
Requested(c) ==
  ( Range(c.packages)
    \cup UNION {HardDeps(c.tarballs[k]) : k \in DOMAIN c.tarballs}
    \cup UNION {HardDeps(c.descs[k]) \cup Range(c.descs[k].sug) : k \in DOMAIN c.descs} )
  \ BasePkgs

SuggestsOn(c, p) ==
  IF CustField(c, p, "sug") # "" THEN CustField(c, p, "sug") = "true"
  ELSE c.suggests /\ p \in Range(c.packages)

RECURSIVE Closure(_, _)
Closure(next, S) ==
  LET N == S \cup UNION {next[p] : p \in S}
  IN IF N = S THEN S ELSE Closure(next, N)


AllNames(w) == UNION {{r.src[i].pkg : i \in DOMAIN r.src} \cup {r.bin[i].pkg : i \in DOMAIN r.bin} : r \in Range(w.repos)}

\* The complete answer of the planner.
PlanOf(w, c) ==
  LET names == AllNames(w) \cup Requested(c)
      sel   == TLCEval([p \in names |-> Select(w, c, p)])
      avail == {p \in names : sel[p].found}
      reqs  == TLCEval([p \in avail |-> {d \in HardDeps(sel[p].rec) : d \in avail /\ ~Excluded(c, d)}])
      sugs  == TLCEval([p \in avail |-> IF SuggestsOn(c, p)
                                THEN {d \in Range(sel[p].rec.sug) : d \in avail /\ ~Excluded(c, d)}
                                ELSE {}])
      missing == Requested(c) \ avail
      bad   == BadCust(w, c)
      plan  == IF missing # {} \/ bad THEN {}
               ELSE Closure(TLCEval([p \in avail |-> reqs[p] \cup sugs[p]]), Requested(c))
      needs == TLCEval([p \in plan |-> Closure(reqs, reqs[p])])
  IN [missing |-> missing,
      cyclic  |-> \E p \in plan : p \in needs[p],
      bad     |-> bad,
      ok      |-> ~bad /\ missing = {} /\ ~(\E p \in plan : p \in needs[p]),
      plan    |-> plan,
      sel     |-> [p \in plan |-> sel[p]],
      reqs    |-> [p \in plan |-> reqs[p]],
      needs   |-> needs]

\* ---------------------------------------------------------------- relation to the library
\* lib: function from package name to [vn |-> version, ...]
Outdated(plan, lib) == {p \in plan.plan \cap DOMAIN lib : Older(lib[p].vn, plan.sel[p].rec.vn)}
Staged(plan, c, lib) == IF c.update THEN Outdated(plan, lib) ELSE {}
NewPkgs(plan, lib) == plan.plan \ DOMAIN lib
\* repository packages an install run has to install
ToInstall(plan, c, lib) == NewPkgs(plan, lib) \cup Staged(plan, c, lib)
=============================================================================
