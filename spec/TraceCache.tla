----------------------------- MODULE TraceCache -----------------------------
(***************************************************************************)
(* Checks recorded histories of installs that share a cache, and of          *)
(* cleanings, against Install and Cache.  Lines: run (the inputs, the         *)
(* library and the cache), R calls s and f, end; clean.                       *)
(***************************************************************************)
EXTENDS Cache, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, skip, cache, made
tvars == <<vars, i, skip, cache, made>>
E == Trace[i]

Ent(s, d) == s[CHOOSE k \in DOMAIN s : s[k].dir = d]
PkgDirs(s) == {s[k].dir : k \in {j \in DOMAIN s : s[j].kind = "pkg" /\ s[j].pkg = s[j].dir}}
AsLib(s) == [d \in PkgDirs(s) |-> LET e == Ent(s, d) IN [ver |-> e.ver, vn |-> e.vn, marker |-> e.marker]]
AsFull(s) == [d \in {s[k].dir : k \in DOMAIN s} |-> Ent(s, d).hash]
Listed(s) == [d \in {s[k].d : k \in DOMAIN s} |-> LET e == s[CHOOSE k \in DOMAIN s : s[k].d = d] IN [ver |-> e.v, marker |-> e.m]]

Report(what) == PrintT(<<"REJECTED", E.id, i, what, Checks>>)
Init == i = 1 /\ skip = FALSE /\ r = [cmd |-> "none"] /\ lib = <<>> /\ running = {} /\ built = {} /\ inst = {}
        /\ failed = {} /\ begun = {} /\ aborted = FALSE /\ cache = {} /\ made = {}

Begin == /\ E.e = "run"
         /\ r' = NewRun("install", E.w, E.c, AsLib(E.lib), AsFull(E.lib), E.ex, E.procs)
         /\ lib' = AsLib(E.lib)
         /\ running' = {} /\ built' = {} /\ inst' = {} /\ failed' = {} /\ begun' = {} /\ aborted' = FALSE
         /\ cache' = Listed2(E.cache)
         /\ made' = IF E.cont THEN {m \in made : Untagged(m, Listed2(E.cache))} ELSE {}
         /\ skip' = (E.cont /\ skip)
Start == /\ E.e = "s" /\ ~skip
         /\ IF CanStart(E.k, E.p, [ver |-> E.ver, marker |-> E.marker], Listed(E.ls), E.scratch) /\ G("C16", BuiltByUs(E.k, E.bm)) /\ G("C30", ~Rebuild(made, E.k, E.p))
            THEN running' = running \cup {Active(E.k, E.p)} /\ begun' = begun \cup {Active(E.k, E.p)} /\ skip' = FALSE
            ELSE Report("start " \o E.k \o " " \o E.p) /\ skip' = TRUE /\ UNCHANGED <<running, begun>>
         /\ UNCHANGED <<r, lib, built, inst, failed, aborted, cache, made>>
Finish == /\ E.e = "f" /\ ~skip /\ AfterEnd(E.k, E.p, E.ok, <<>>) /\ UNCHANGED <<r, lib, begun, aborted, skip, cache, made>>
End == /\ E.e = "end" /\ ~skip
       /\ IF /\ CanEnd(AsLib(E.lib), E.ex, AsFull(E.lib), E.outcome)
             /\ (r.plan.ok /\ E.fails = <<>> => E.outcome = "ok" /\ failed = {})
             /\ AddedOK(cache, Listed2(E.cache))
             /\ G("C30", TransfersOK(made, E.gets) /\ KeptOK(Listed2(E.cache)))
             /\ G("C31", E.outside = E.outside0)
          THEN skip' = FALSE ELSE Report("end") /\ skip' = TRUE
       /\ made' = IF skip' THEN made ELSE MadeBy(cache, Listed2(E.cache), made)
       /\ UNCHANGED <<vars, cache>>
Clean == /\ E.e = "clean"
         /\ IF skip \/ (/\ E.outcome \in (IF E.o.src /\ E.o.bin THEN {"ok", "err"} ELSE {"ok"})
                        /\ CleanedOK(E.o, Range(E.tars), Listed2(E.before), Listed2(E.after))
                        /\ E.outside = E.outside0)
            THEN skip' = skip ELSE Report("clean") /\ skip' = TRUE
         /\ UNCHANGED <<vars, cache, made>>
Skipped == E.e \notin {"run", "clean"} /\ skip /\ UNCHANGED <<vars, skip, cache, made>>
Next == i <= Len(Trace) /\ i' = i + 1 /\ (Begin \/ Start \/ Finish \/ End \/ Clean \/ Skipped)
TraceSpec == Init /\ [][Next]_tvars
Pos == i
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
