---------------------------- MODULE TraceSecure ----------------------------
(* Checks runs against servers of several kinds against Secure.              *)
EXTENDS Secure, Json, IOUtils, TLC
CONSTANT Checks
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<svars, i>>
E == Trace[i]
SetOf(q) == {q[k] : k \in DOMAIN q}
Seen == [E.o EXCEPT !.reqs = SetOf(@), !.lib = SetOf(@), !.cached = SetOf(@)]
Init == i = 1 /\ known = {} /\ cached = {} /\ lib = {}
Step ==
  /\ i <= Len(Trace) /\ i' = i + 1
  /\ IF E.e = "begin" THEN known' = {} /\ cached' = {} /\ lib' = {}
     ELSE After(E.q, Seen) /\ (RunOK(E.q, Seen) \/ PrintT(<<"REJECTED", E.id, i, E.q.cmd, Checks>>))
TraceSpec == Init /\ [][Step]_vars
Pos == i
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
