----------------------------- MODULE TraceScale -----------------------------
EXTENDS Scale, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i = 1
Next == i <= Len(Trace) /\ i' = i + 1
        /\ (ScaleOK(Trace[i]) \/ PrintT(<<"REJECTED", Trace[i].id, i, "run", Checks>>))
TraceSpec == Init /\ [][Next]_i
Pos == i
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
