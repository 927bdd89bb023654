---------------------------- MODULE TraceConfig ----------------------------
(***************************************************************************)
(* Checks recorded histories of add and remove commands against ConfigFile. *)
(***************************************************************************)
EXTENDS ConfigFile, Json, IOUtils, TLC
CONSTANT Checks
G(id, cond) == id \notin Checks \/ cond
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, skip, file
vars == <<i, skip, file>>
E == Trace[i]
Report(what) == PrintT(<<"REJECTED", E.id, i, what, Checks>>)
Init == i = 1 /\ skip = FALSE /\ file = <<>>
Begin == E.e = "file" /\ file' = E.f /\ skip' = FALSE
Edit ==
  /\ E.e = "edit" /\ ~skip
  /\ file' = E.f
  /\ IF G("C20", \/ E.outcome = "ok" /\ EditOK(E.op, E.names, file, E.f)
                 \/ E.odd /\ Declined(file, E.f, E.outcome))
     THEN skip' = FALSE ELSE Report(E.op) /\ skip' = TRUE
Cut ==
  /\ E.e = "cut" /\ ~skip
  /\ file' = E.f
  /\ IF G("C20", E.outcome \in {"ok", "err", "killed"} /\ CutOK(E.op, E.names, file, E.f))
     THEN skip' = FALSE ELSE Report("cut " \o E.op) /\ skip' = TRUE
\* pkgr itself reads the edited file: the packages it takes as requested
Read ==
  /\ E.e = "read" /\ ~skip /\ UNCHANGED file
  /\ IF G("C20", E.outcome = "ok" /\ {E.users[k] : k \in DOMAIN E.users} = {file.pkgs[k] : k \in DOMAIN file.pkgs} /\ E.raw = file.raw)
     THEN skip' = FALSE ELSE Report("read") /\ skip' = TRUE
Skipped == E.e # "file" /\ skip /\ UNCHANGED <<skip, file>>
TraceNext == i <= Len(Trace) /\ i' = i + 1 /\ (Begin \/ Edit \/ Cut \/ Read \/ Skipped)
TraceSpec == Init /\ [][TraceNext]_vars
Pos == i
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
