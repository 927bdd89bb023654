---------------------------- MODULE TraceEngine ----------------------------
(***************************************************************************)
(* Checks the order of R calls in recorded installs against Engine: a run is *)
(* accepted when some order of the hidden steps explains it.  Every run is   *)
(* searched from an initial state of its own.  The trace lists per run       *)
(*   [e |-> "plan", id, need: <<[p, d]>>, here, workers] and its steps       *)
(*   [e |-> "take", p], [e |-> "done", p, ok], then [e |-> "over"]           *)
(* Runs record only packages the engine handles (no tarballs).               *)
(***************************************************************************)
EXTENDS Engine, Resolve, Json, IOUtils
CONSTANT Checks
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
vars == <<evars, i>>
E == Trace[i]
NeedOf(pl) == pl.needs
LibNames(l) == {l[k].pkg : k \in {j \in DOMAIN l : l[j].kind = "pkg" /\ l[j].pkg = l[j].dir}}
VnIn(l, p) == l[CHOOSE k \in DOMAIN l : l[k].dir = p].vn
Begin(k) ==
  LET R0 == Trace[k]
      pl == PlanOf(R0.w, R0.c)
      tars == {R0.c.tarballs[x].pkg : x \in DOMAIN R0.c.tarballs}
      old == {p \in LibNames(R0.lib) \cap pl.plan : R0.c.update /\ Older(VnIn(R0.lib, p), pl.sel[p].rec.vn)}
  IN /\ i = k + 1
     /\ EngineInit(pl.needs, ((LibNames(R0.lib) \cap pl.plan) \ old) \ tars, IF R0.c.threads > 0 THEN R0.c.threads ELSE IF R0.procs < 8 THEN R0.procs ELSE 8)
Init == \E k \in {x \in DOMAIN Trace : Trace[x].e = "plan"} : Begin(k)
Visible ==
  /\ i' = i + 1
  /\ \/ E.e = "take" /\ Take(E.p)
     \/ E.e = "done" /\ Complete(E.p, IF E.ok THEN "ok" ELSE "fail")
     \/ E.e = "over" /\ PrintT(<<"ACCEPTED", E.id>>) /\ UNCHANGED evars
Next == i <= Len(Trace) /\ E.e # "plan" /\ (Visible \/ (Hidden /\ UNCHANGED i))
TraceSpec == Init /\ [][Next]_vars
=============================================================================
