------------------------------- MODULE EnvImpl -------------------------------
(* How the environment of a build is put together, entry by entry, and that the   *)
(* result meets Env for every small environment, customization and library.        *)
EXTENDS Env
CONSTANTS L
VARIABLES sys, cust, build
vars == <<sys, cust, build>>
N(n, v) == [n |-> n, v |-> v]
Names == {"A", "PATH", "R_LIBS_USER", "R_LIBS_SITE", "GITHUB_PAT", "github_pat"}
Up == [n \in Names |-> IF n = "github_pat" THEN "GITHUB_PAT" ELSE n]
Values == {"", "x", "y"}
SeqOf(S) == LET RECURSIVE go(_) go(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o go(T \ {x}) IN go(S)
\* every order of entries, each name once, PATH always there
Envs == UNION {{s \in [1..k -> [n : Names, v : Values]] : (\A i, j \in 1..k : s[i].n = s[j].n => i = j) /\ (\E i \in 1..k : s[i].n = "PATH" /\ s[i].v # "")} : k \in 1..L}
Init == sys \in Envs /\ cust \in [({"A"} \cup {x \in {"GITHUB_PAT"} : TRUE}) -> {"-", "c"}] /\ build \in BOOLEAN
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Lib == "lib"
RDir == "r"
Custom == [n \in {m \in DOMAIN cust : cust[m] # "-"} |-> cust[n]]
First(s, n) == \E i \in DOMAIN s : s[i].n = n
RECURSIVE Take(_, _)
Take(s, acc) ==
  IF s = <<>> THEN acc
  ELSE LET x == Head(s) IN
    Take(Tail(s), IF x.v = "" \/ x.n \in {"R_LIBS_USER", "R_LIBS_SITE"} \/ First(acc, x.n) THEN acc
                  ELSE Append(acc, N(x.n, IF x.n = "PATH" THEN RDir \o ":" \o x.v ELSE IF Up[x.n] \in Censored THEN "**HIDDEN**" ELSE x.v)))
Built == Take(sys, LET h == SeqOf(DOMAIN Custom) IN [i \in DOMAIN h |-> N(h[i], Custom[h[i]])])
         \o <<N("R_LIBS_USER", "tmp")>> \o (IF build THEN <<N("R_LIBS_SITE", Lib)>> ELSE <<>>)
Right == EnvOK(EnvFn(Built), "empty", EnvFn(sys), Custom, Up, RDir, Lib, build, [led |-> FALSE, v |-> EnvFn(sys)["PATH"]])
NoSecret == \A i \in DOMAIN Built : Up[Built[i].n] \in Censored => Built[i].v = "**HIDDEN**" \/ Built[i].n \in DOMAIN Custom
=============================================================================
