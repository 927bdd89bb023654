----------------------------- MODULE TraceLoad -----------------------------
(***************************************************************************)
(* Checks recorded load runs against Load.                                  *)
(***************************************************************************)
EXTENDS Load, Resolve, Json, IOUtils
H(id, cond) == id \notin Checks \/ cond
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, skip, plan, free
vars == <<lvars, i, skip, plan, free>>
E == Trace[i]
Report(what) == PrintT(<<"REJECTED", E.id, i, what, Checks>>)
Init == i = 1 /\ skip = FALSE /\ q = <<>> /\ active = {} /\ begun = {} /\ ended = {} /\ plan = <<>> /\ free = FALSE

Bound(threads, procs) == IF threads > 0 THEN threads ELSE IF procs < 8 THEN procs ELSE 8
Fn(s) == [p \in {s[k].p : k \in DOMAIN s} |-> s[CHOOSE k \in DOMAIN s : s[k].p = p]]
\* without a plan (a requested package is missing) "all packages" is not defined
Unplanned(pl, e) == e.all /\ pl.missing # {}
Begin ==
  /\ E.e = "load"
  /\ plan' = PlanOf(E.w, E.c)
  /\ free' = Unplanned(plan', E)
  /\ q' = NewRequest(IF plan'.cyclic \/ plan'.bad \/ Unplanned(plan', E) THEN {} ELSE IF E.all THEN plan'.plan \cup {E.c.tarballs[k].pkg : k \in DOMAIN E.c.tarballs} ELSE Range(E.c.packages), Bound(E.c.threads, E.procs), Fn(E.truth))
  /\ active' = {} /\ begun' = {} /\ ended' = {} /\ skip' = FALSE
Opened ==
  /\ E.e = "s" /\ ~skip /\ UNCHANGED <<plan, free>>
  /\ IF free \/ CanOpen(E.k, E.p) THEN Open(E.k, E.p) /\ skip' = FALSE ELSE Report("session for " \o E.p) /\ skip' = TRUE /\ UNCHANGED lvars
Closed == E.e = "f" /\ ~skip /\ Close(E.k, E.p) /\ UNCHANGED <<plan, skip, free>>
\* the JSON report
Reported ==
  /\ E.e = "json" /\ ~skip /\ UNCHANGED <<lvars, plan, free>>
  /\ IF H("C24", free \/ (Cardinality({E.res[k].p : k \in DOMAIN E.res}) = Len(E.res) /\ ReportOK(Fn(E.res), E.failures) /\ AllDone))
     THEN skip' = FALSE ELSE Report("report") /\ skip' = TRUE
\* the report in the log: names of failing packages, results seen, and the failure count
Logged ==
  /\ E.e = "log" /\ ~skip /\ UNCHANGED <<lvars, plan, free>>
  /\ IF H("C24", free \/ (/\ Range(E.failing) = Failing /\ Len(E.failing) = Cardinality(Failing)
                 /\ E.failures = Cardinality(Failing) /\ E.allok = (Failing = {}) /\ AllDone))
     THEN skip' = FALSE ELSE Report("log") /\ skip' = TRUE
End ==
  /\ E.e = "end" /\ ~skip /\ UNCHANGED <<lvars, plan, free>>
  /\ IF H("C24", IF plan.cyclic \/ plan.bad THEN E.outcome = "err" /\ begun = {} ELSE free \/ (E.outcome = "ok" /\ AllDone)) /\ H("C24", E.outcome # "hang")
     THEN skip' = FALSE ELSE Report("end") /\ skip' = TRUE
Skipped == E.e # "load" /\ skip /\ UNCHANGED <<lvars, skip, plan, free>>
TraceNext == i <= Len(Trace) /\ i' = i + 1 /\ (Begin \/ Opened \/ Closed \/ Reported \/ Logged \/ End \/ Skipped)
TraceSpec == Init /\ [][TraceNext]_vars
Pos == i
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
