------------------------------ MODULE TraceEnv ------------------------------
(***************************************************************************)
(* Checks the environments recorded at the start of builds against Env, and *)
(* the outputs of runs against the secrecy of access tokens.                *)
(***************************************************************************)
EXTENDS Env, Json, IOUtils
CONSTANT Checks
G(id, cond) == id \notin Checks \/ cond
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, skip, run, users
vars == <<i, skip, run, users>>
E == Trace[i]
Report(what) == PrintT(<<"REJECTED", E.id, i, what, Checks>>)
Init == i = 1 /\ skip = FALSE /\ run = [id |-> ""] /\ users = {}
CustOf(p) == LET K == {k \in DOMAIN run.cust : run.cust[k].pkg = p} IN IF K = {} THEN <<>> ELSE EnvFn(run.cust[CHOOSE k \in K : TRUE].env)
Up == [n \in {run.up[k].n : k \in DOMAIN run.up} |-> run.up[CHOOSE k \in DOMAIN run.up : run.up[k].n = n].v]
Begin == E.e = "env" /\ run' = E /\ users' = {} /\ skip' = FALSE
Build ==
  /\ E.e = "build" /\ ~skip
  /\ LET got == EnvFn(E.env) IN
     \* private: no two calls share a user library
     IF G("C21", EnvOK(got, E.user, EnvFn(run.inh), CustOf(E.p), Up, run.rdir, run.lib, E.build, run.path) /\ got["R_LIBS_USER"] \notin users)
     THEN skip' = FALSE /\ users' = users \cup {IF "R_LIBS_USER" \in DOMAIN got THEN got["R_LIBS_USER"] ELSE ""}
     ELSE Report("environment of " \o E.p) /\ skip' = TRUE /\ UNCHANGED users
  /\ UNCHANGED run
\* secrets whose value appeared in what the run printed or logged
Output ==
  /\ E.e = "output" /\ ~skip
  /\ IF G("C22", \A k \in DOMAIN E.leaks : E.leaks[k] \notin Censored) THEN skip' = FALSE ELSE Report("secret in " \o E.where) /\ skip' = TRUE
  /\ UNCHANGED <<run, users>>
Skipped == E.e # "env" /\ skip /\ UNCHANGED <<skip, run, users>>
TraceNext == i <= Len(Trace) /\ i' = i + 1 /\ (Begin \/ Build \/ Output \/ Skipped)
TraceSpec == Init /\ [][TraceNext]_vars
Pos == i
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
