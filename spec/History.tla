------------------------------ MODULE History ------------------------------
(***************************************************************************)
(* Several runs of the same install, one after the other, on one library    *)
(* and one cache: runs that are killed ("cut"), runs that meet failing       *)
(* transfers or builds ("faulty"), a run that is left alone ("rerun"), the   *)
(* same once more ("again"), and an install of the same packages into an     *)
(* empty library with what the cache then holds ("fresh").                   *)
(* r (of Install) holds the run that would have taken place without any of   *)
(* the trouble: its library, its plan, its result.                           *)
(***************************************************************************)
EXTENDS Install

Kinds == {"cut", "faulty", "disk", "rerun", "again", "fresh"}

\* R call k for p with content x, seeing library l, in a run of kind how, in which the
\* transfers of the packages bad failed
HistStart(how, bad, k, p, x, l, scratch) ==
  /\ p \in r.plan.plan \cup r.tars
  /\ k # "T" =>
     /\ p \in r.plan.plan
     \* nothing but the genuine content is ever handed to R
     /\ G("C17", p \notin bad /\ x = [ver |-> r.plan.sel[p].rec.ver, marker |-> Marker(r.plan.sel[p])])
     /\ G("C29", x = [ver |-> r.plan.sel[p].rec.ver, marker |-> Marker(r.plan.sel[p])])
     /\ G("C14", x = [ver |-> r.plan.sel[p].rec.ver, marker |-> Marker(r.plan.sel[p])])
     \* and only what has to be installed
     /\ G("C14", p \in TodoRepo)
     /\ G("C14", how = "again" => p \in r.tars)
     /\ G("C14", \A d \in r.plan.needs[p] : Have(l, d, Content(d)))
     /\ G("C29", \A d \in r.plan.needs[p] : Have(l, d, Content(d)))
     /\ G("C17", \A d \in r.plan.needs[p] : Have(l, d, Content(d)))
  /\ k = "T" =>
     /\ p \in r.tars
     /\ x.marker = TarMarker(TarOf(r.c, p))

\* what an uninterrupted run leaves
Complete(l, full) ==
  /\ DOMAIN full = DOMAIN r.full0 \cup r.plan.plan \cup r.tars
  /\ \A p \in r.plan.plan \cup r.tars : Have(l, p, FinalContent(p))
  /\ \A d \in DOMAIN r.full0 \ (r.plan.plan \cup r.tars) : full[d] = r.full0[d]

\* where a package is kept while its successor is installed
Aside(p) == "__OLD__" \o p

HistEnd(how, bad, outcome, l, full, before) ==
  /\ outcome \in {"ok", "err"} \cup (IF how = "cut" THEN {"killed"} ELSE {})
  /\ ~r.plan.ok => full = r.full0
  /\ how \in {"rerun", "fresh"} /\ r.plan.ok =>
     /\ G("C14", outcome = "ok" /\ Complete(l, full))
     /\ G("C17", outcome = "ok" /\ Complete(l, full))
     /\ G("C29", outcome = "ok" /\ Complete(l, full))
  /\ how = "again" /\ r.plan.ok => G("C14", outcome = "ok" /\ full = before) /\ G("C29", outcome = "ok" /\ full = before)
  \* nothing halfway after a fault of the disk, nothing lost: old content, new content, or old content put aside
  /\ how = "disk" => G("C29",
       /\ \A p \in DOMAIN l \cap (r.plan.plan \cup r.tars) :
            \/ p \in DOMAIN r.full0 /\ full[p] = r.full0[p]
            \/ p \in r.plan.plan /\ Have(l, p, Content(p))
            \/ Have(l, p, FinalContent(p))
       /\ ~r.c.norollback => \A p \in DOMAIN r.full0 \cap (r.plan.plan \cup r.tars) :
            \/ p \in DOMAIN l
            \/ Aside(p) \in DOMAIN full /\ full[Aside(p)] = r.full0[p])
  \* a package that could not be fetched is not there, or is what was there
  /\ how = "faulty" => G("C17", \A p \in bad \ r.tars : p \in DOMAIN full => p \in DOMAIN r.full0 /\ full[p] = r.full0[p])
  \* whatever happened, what was not asked for keeps its content
  /\ \A d \in DOMAIN r.full0 \ (r.plan.plan \cup r.tars) : d \in DOMAIN full /\ full[d] = r.full0[d]
=============================================================================
