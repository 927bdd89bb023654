------------------------------ MODULE TraceDb ------------------------------
(***************************************************************************)
(* Explains recorded histories of runs sharing remembered package databases  *)
(* by behaviours of Db.  Which databases a failing run leaves is not seen,    *)
(* only how many there are.                                                   *)
(***************************************************************************)
EXTENDS Db, Json, IOUtils
CONSTANT Checks
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
tvars == <<dbvars, i>>
E == Trace[i]

\* every history is explained on its own, from its world line on
Begin(k) ==
  LET L == Trace[k].live IN
  /\ i = k + 1 /\ store = <<>> /\ now = 0
  /\ live = [l \in {L[n].loc : n \in DOMAIN L} |-> LET x == L[CHOOSE n \in DOMAIN L : L[n].loc = l] IN [src |-> x.src, bin |-> x.bin]]
Init == \E k \in {x \in DOMAIN Trace : Trace[x].e = "world"} : Begin(k)
Pub == E.e = "publish" /\ Publish(E.loc, E.src, E.bin)
Older == E.e = "age" /\ Age(E.secs)
Dmg == E.e = "damage" /\ Damage
AsSel(s) == {[loc |-> s[n].loc, type |-> s[n].type, repo |-> s[n].repo, content |-> s[n].content, suffix |-> s[n].suffix] : n \in DOMAIN s}
\* a run: fails exactly when something is needed that cannot be read; otherwise gives the right answer
Ran == /\ E.e = "plan"
       /\ LET bad == Failing(E.conf, E.rver, E.ttl) # {} IN
          /\ E.outcome = (IF bad THEN "err" ELSE "ok")
          /\ ~bad => \A n \in DOMAIN E.sels : AsSel(E.sels[n]) = Selected(E.conf, E.rver, E.ttl) /\ Len(E.sels[n]) = Cardinality(AsSel(E.sels[n]))
       /\ Run(E.conf, E.rver, E.ttl, E.par)
       /\ Cardinality(DOMAIN store') = E.files
Cleaned == /\ E.e = "clean" /\ E.outcome = "ok" /\ E.kept
           /\ Clean(E.conf, E.rver, E.all, Range(E.names))
           /\ Cardinality(DOMAIN store') = E.files
Over == E.e = "over" /\ UNCHANGED dbvars /\ PrintT(<<"ACCEPTED", E.id>>)
Next == i <= Len(Trace) /\ i' = i + 1 /\ (Pub \/ Older \/ Dmg \/ Ran \/ Cleaned \/ Over)
TraceSpec == Init /\ [][Next]_tvars
=============================================================================
