---------------------------- MODULE TraceHistory ----------------------------
(***************************************************************************)
(* Checks recorded histories of runs against History.  Lines: goal (the      *)
(* inputs), then per run begin, R calls (s), stop.                           *)
(***************************************************************************)
EXTENDS History, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, skip, how, bad, before
tvars == <<vars, i, skip, how, bad, before>>
E == Trace[i]

Ent(s, d) == s[CHOOSE k \in DOMAIN s : s[k].dir = d]
PkgDirs(s) == {s[k].dir : k \in {j \in DOMAIN s : s[j].kind = "pkg" /\ s[j].pkg = s[j].dir}}
AsLib(s) == [d \in PkgDirs(s) |-> LET e == Ent(s, d) IN [ver |-> e.ver, vn |-> e.vn, marker |-> e.marker]]
AsFull(s) == [d \in {s[k].dir : k \in DOMAIN s} |-> Ent(s, d).hash]
Listed(s) == [d \in {s[k].d : k \in DOMAIN s} |-> LET e == s[CHOOSE k \in DOMAIN s : s[k].d = d] IN [ver |-> e.v, marker |-> e.m]]

Report(what) == PrintT(<<"REJECTED", E.id, i, what, Checks>>)
Init == i = 1 /\ skip = FALSE /\ r = [cmd |-> "none"] /\ lib = <<>> /\ running = {} /\ built = {} /\ inst = {}
        /\ failed = {} /\ begun = {} /\ aborted = FALSE /\ how = "none" /\ bad = {} /\ before = <<>>
Rest == UNCHANGED <<lib, running, built, inst, failed, begun, aborted>>

Goal == /\ E.e = "goal" /\ r' = NewRun("install", E.w, E.c, AsLib(E.lib), AsFull(E.lib), E.ex, E.procs)
        /\ skip' = (E.cont /\ skip) /\ how' = "none" /\ bad' = {} /\ before' = <<>> /\ Rest
Begin == /\ E.e = "begin" /\ ~skip /\ how' = E.how /\ bad' = Range(E.bad) /\ UNCHANGED <<r, skip, before>> /\ Rest
Start == /\ E.e = "s" /\ ~skip
         /\ IF HistStart(how, bad, E.k, E.p, [ver |-> E.ver, marker |-> E.marker], Listed(E.ls), E.scratch)
            THEN skip' = FALSE ELSE Report(how \o " start " \o E.p) /\ skip' = TRUE
         /\ UNCHANGED <<r, how, bad, before>> /\ Rest
Finish == /\ E.e = "f" /\ ~skip /\ UNCHANGED <<r, skip, how, bad, before>> /\ Rest
Stop == /\ E.e = "stop" /\ ~skip
        /\ IF HistEnd(how, bad, E.outcome, AsLib(E.lib), AsFull(E.lib), before)
           THEN skip' = FALSE ELSE Report(how \o " end") /\ skip' = TRUE
        /\ before' = AsFull(E.lib) /\ UNCHANGED <<r, how, bad>> /\ Rest
Skipped == E.e # "goal" /\ skip /\ UNCHANGED <<r, skip, how, bad, before>> /\ Rest
Next == i <= Len(Trace) /\ i' = i + 1 /\ (Goal \/ Begin \/ Start \/ Finish \/ Stop \/ Skipped)
TraceSpec == Init /\ [][Next]_tvars
Pos == i
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
