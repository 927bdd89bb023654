--------------------------- MODULE TraceSettings ---------------------------
(***************************************************************************)
(* Checks what runs with given settings did against Settings.              *)
(***************************************************************************)
EXTENDS Settings, Json, IOUtils, TLC
CONSTANT Checks
G(id, cond) == id \notin Checks \/ cond
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<i>>
E == Trace[i]
SetOf(q) == {q[k] : k \in DOMAIN q}
Seen == [E.o EXCEPT !.rs = SetOf(@), !.libs = SetOf(@), !.touched = SetOf(@), !.pkgs = SetOf(@)]
Init == i = 1
TraceNext == i <= Len(Trace) /\ i' = i + 1 /\ (G("C27", SettingsOK(E.s, Seen)) \/ PrintT(<<"REJECTED", E.id, i, E.s.cmd, Checks>>))
TraceSpec == Init /\ [][TraceNext]_vars
Pos == i
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
