------------------------------ MODULE Library ------------------------------
(***************************************************************************)
(* What install runs do to the package library, one file system step at a    *)
(* time, with the program being killed between any two steps.                 *)
(*                                                                            *)
(*   fs      the library: directory -> what is in it.  A directory is          *)
(*           <<kind, p>>: "act" the package itself, "bak" its backup, "rem"     *)
(*           a package on its way out.  A content is [c, s]: c is "old", "new"  *)
(*           "tar"; s is "full", "broken" (incomplete) or "nodesc" (incomplete   *)
(*           and without its DESCRIPTION)                                        *)
(*   exists  whether the library directory exists                                *)
(*   pc      where the run is; w: what is left to do there                        *)
(*   plan    what the run decided at its beginning                                *)
(*   fail    whether a package failed                                             *)
(*   inst    packages the run installed                                           *)
(*                                                                               *)
(* Removing a directory is not atomic: entries vanish one after the other.  Moves *)
(* and the installation by R (which prepares a package apart and moves it into     *)
(* place) are.                                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  Repo,        \* packages from repositories
  Tars,        \* packages from tarballs
  Others,      \* packages nobody asked for
  Kills,       \* how many runs are killed
  SafeRemoval, \* a package is moved out of its place before it is removed
  Faults,      \* how many changes of the file system fail
  Careful      \* a package that cannot be put aside ends the run; a rollback that fails for one package goes on
               \* with the others and keeps the backups

VARIABLES lib0, deps, update, norollback, ex0, fs, exists, pc, w, plan, fail, inst, kills, healthy, clean, start, faults, bad
lvars == <<lib0, deps, update, norollback, ex0, fs, exists, pc, w, plan, fail, inst, kills, healthy, clean, start, faults, bad>>
conf == <<lib0, deps, update, norollback, ex0>>
fine == <<faults, bad>>   \* bad: a change failed in this run

Full(c) == [c |-> c, s |-> "full"]
Act(p) == <<"act", p>>
Bak(p) == <<"bak", p>>
Rem(p) == <<"rem", p>>
Without(f, d) == [x \in DOMAIN f \ {d} |-> f[x]]
With(f, d, v) == [x \in DOMAIN f \cup {d} |-> IF x = d THEN v ELSE f[x]]
Move(f, a, b) == With(Without(f, a), b, f[a])
HasDesc(f, d) == d \in DOMAIN f /\ f[d].s # "nodesc"

\* lib0: for every package "none", "older" (than the repository's) or "same"
Dags == {d \in [Repo -> SUBSET Repo] : \A p \in Repo : \A q \in d[p] : q < p}
Initial(l) == [d \in {Act(p) : p \in {q \in DOMAIN l : l[q] # "none"}} |-> Full("old")]
Init ==
  /\ lib0 \in [Repo \cup Tars \cup Others -> {"none", "older", "same"}]
  /\ \A p \in Tars \cup Others : lib0[p] # "same"
  /\ deps \in Dags /\ update \in BOOLEAN /\ norollback \in BOOLEAN
  /\ ex0 \in {TRUE} \cup {\A p \in DOMAIN lib0 : lib0[p] = "none"}
  /\ (~ex0 => \A p \in DOMAIN lib0 : lib0[p] = "none")
  /\ fs = Initial(lib0) /\ exists = ex0
  /\ pc = "idle" /\ w = <<>> /\ plan = <<>> /\ fail = FALSE /\ inst = {} /\ kills = 0
  /\ healthy = FALSE /\ clean = TRUE /\ start = <<>> /\ faults = 0 /\ bad = FALSE

\* ---------------------------------------------------------------- steps of a run
At(p) == pc = p
Go(p, todo) == pc' = p /\ w' = todo
Stay == UNCHANGED <<pc, w>>
Keep == UNCHANGED <<plan, fail, inst, kills, healthy, clean, start>> /\ UNCHANGED conf /\ UNCHANGED fine

\* the last run meets no failing packages; before it, runs may be killed
Begin ==
  /\ At("idle") /\ healthy' \in BOOLEAN
  /\ Go("recover", {d \in DOMAIN fs : d[1] \in {"bak", "rem"}})
  /\ plan' = <<>> /\ fail' = FALSE /\ inst' = {} /\ start' = [fs |-> fs, exists |-> exists]
  /\ bad' = FALSE /\ UNCHANGED <<fs, exists, kills, clean, faults>> /\ UNCHANGED conf

\* removing a directory d, one step
Crumble(d) == \E s \in {"broken", "nodesc"} : fs[d].s # "nodesc" /\ fs' = [fs EXCEPT ![d].s = s]
Vanish(d) == fs' = Without(fs, d)
Removal(d) == d \in DOMAIN fs /\ (Crumble(d) \/ Vanish(d))

\* backups and removals that were left
Recover ==
  /\ At("recover") /\ w # {}
  /\ \E d \in w :
       \/ d \notin DOMAIN fs /\ Go("recover", w \ {d}) /\ UNCHANGED fs
       \/ d \in DOMAIN fs /\ (d[1] = "rem" \/ Act(d[2]) \in DOMAIN fs) /\ Removal(d) /\ Stay
       \/ d \in DOMAIN fs /\ d[1] = "bak" /\ Act(d[2]) \notin DOMAIN fs /\ fs' = Move(fs, d, Act(d[2])) /\ Stay
  /\ UNCHANGED exists /\ Keep

\* what is installed is read from the DESCRIPTION files
Seen == {p \in Repo \cup Tars \cup Others : HasDesc(fs, Act(p))}
Outdated == {p \in Repo \cap Seen : fs[Act(p)].c = "old" /\ lib0[p] = "older"}
Decide ==
  /\ At("recover") /\ w = {}
  /\ plan' = [outdated |-> Outdated, fresh |-> (Repo \cup Tars) \ Seen, create |-> ~exists, over |-> Tars \cap Seen]
  /\ Go("make", {})
  /\ UNCHANGED <<fs, exists, fail, inst, kills, healthy, clean, start>> /\ UNCHANGED conf /\ UNCHANGED fine
Make ==
  /\ At("make") /\ exists' = TRUE
  /\ Go("stage", IF update THEN plan.outdated ELSE {})
  /\ UNCHANGED fs /\ Keep
Staging ==
  /\ At("stage")
  /\ IF w = {} THEN Go("overwrite", plan.over) /\ UNCHANGED fs
     ELSE \E p \in w : fs' = Move(fs, Act(p), Bak(p)) /\ Go("stage", w \ {p})
  /\ UNCHANGED exists /\ Keep
Overwriting ==
  /\ At("overwrite")
  /\ IF w = {} THEN Go("work", Repo) /\ UNCHANGED fs
     ELSE \E p \in w : fs' = Move(fs, Act(p), Bak(p)) /\ Go("overwrite", w \ {p})
  /\ UNCHANGED exists /\ Keep
\* packages whose dependencies are done; a directory that is there is taken for the package
Work ==
  /\ At("work")
  /\ LET ready == {p \in w : deps[p] \cap w = {}} IN
     IF w = {} \/ fail THEN Go("tars", Tars) /\ UNCHANGED <<fs, fail, inst>>
     ELSE \E p \in ready :
       \/ Act(p) \in DOMAIN fs /\ Go("work", w \ {p}) /\ UNCHANGED <<fs, fail, inst>>
       \/ Act(p) \notin DOMAIN fs /\ fs' = With(fs, Act(p), Full("new")) /\ inst' = inst \cup {p} /\ Go("work", w \ {p}) /\ UNCHANGED fail
       \/ Act(p) \notin DOMAIN fs /\ ~healthy /\ fail' = TRUE /\ UNCHANGED <<fs, inst>> /\ Stay
  /\ UNCHANGED <<exists, plan, kills, healthy, clean, start>> /\ UNCHANGED conf /\ UNCHANGED fine
Tarballs ==
  /\ At("tars")
  /\ IF w = {} THEN UNCHANGED <<fs, fail, inst>> /\ IF fail /\ ~norollback THEN Go("undo", <<"new", plan.fresh>>) ELSE Go("forget", {})
     ELSE \E p \in w : Go("tars", w \ {p}) /\
            \/ fs' = With(fs, Act(p), Full("tar")) /\ inst' = inst \cup {p} /\ UNCHANGED fail
            \/ ~healthy /\ fail' = TRUE /\ UNCHANGED <<fs, inst>>
  /\ UNCHANGED <<exists, plan, kills, healthy, clean, start>> /\ UNCHANGED conf /\ UNCHANGED fine

\* rolling back: new packages are removed, backups take their places again
Everything == {d \in DOMAIN fs : TRUE}
Undo ==
  /\ At("undo")
  /\ UNCHANGED <<plan, fail, inst, kills, healthy, clean, start>> /\ UNCHANGED conf /\ UNCHANGED fine
  /\ IF plan.create
     THEN \* the library goes altogether
          IF DOMAIN fs = {} THEN exists' = FALSE /\ UNCHANGED fs /\ Go("forget", {})
          ELSE UNCHANGED exists /\ Stay /\ \E d \in DOMAIN fs :
                 IF SafeRemoval /\ d[1] # "rem" THEN fs' = Move(fs, d, Rem(d[2])) ELSE Removal(d)
     ELSE UNCHANGED exists /\
       IF w[1] = "new" THEN
         IF w[2] = {} THEN UNCHANGED fs /\ Go("undo", <<"back", (IF update THEN plan.outdated ELSE {}) \cup plan.over>>)
         ELSE \E p \in w[2] :
           \/ Act(p) \notin DOMAIN fs /\ Rem(p) \notin DOMAIN fs /\ UNCHANGED fs /\ Go("undo", <<"new", w[2] \ {p}>>)
           \/ Act(p) \in DOMAIN fs /\ Stay /\ (IF SafeRemoval THEN fs' = Move(fs, Act(p), Rem(p)) ELSE Removal(Act(p)))
           \/ Act(p) \notin DOMAIN fs /\ Rem(p) \in DOMAIN fs /\ Stay /\ Removal(Rem(p))
       ELSE
         IF w[2] = {} THEN UNCHANGED fs /\ Go(IF Careful /\ bad THEN "over" ELSE "forget", {})
         ELSE \E p \in w[2] :
           \/ Bak(p) \notin DOMAIN fs /\ Rem(p) \notin DOMAIN fs /\ UNCHANGED fs /\ Go("undo", <<"back", w[2] \ {p}>>)
           \/ Bak(p) \in DOMAIN fs /\ Act(p) \notin DOMAIN fs /\ Stay /\ fs' = Move(fs, Bak(p), Act(p))
           \/ Bak(p) \in DOMAIN fs /\ Act(p) \in DOMAIN fs /\ Stay /\ (IF SafeRemoval THEN fs' = Move(fs, Act(p), Rem(p)) ELSE Removal(Act(p)))
           \/ Bak(p) \notin DOMAIN fs /\ Rem(p) \in DOMAIN fs /\ Stay /\ Removal(Rem(p))
Forget ==
  /\ At("forget")
  /\ LET b == {d \in DOMAIN fs : d[1] \in {"bak", "rem"}} IN
     IF b = {} THEN Go("over", {}) /\ UNCHANGED fs
     ELSE Stay /\ \E d \in b : IF SafeRemoval /\ d[1] = "bak" THEN fs' = Move(fs, d, Rem(d[2])) ELSE Removal(d)
  /\ UNCHANGED exists /\ Keep
Stop ==
  /\ At("over") /\ ~(healthy /\ ~fail /\ ~bad) /\ clean' = FALSE /\ Go("idle", <<>>) /\ UNCHANGED <<fs, exists, plan, fail, inst, kills, healthy, start>> /\ UNCHANGED conf /\ UNCHANGED fine
Kill ==
  /\ pc \notin {"idle", "over"} /\ kills < Kills /\ kills' = kills + 1 /\ clean' = FALSE
  /\ Go("idle", <<>>) /\ UNCHANGED <<fs, exists, plan, fail, inst, healthy, start>> /\ UNCHANGED conf /\ UNCHANGED fine

\* a change of the file system fails
Fault ==
  /\ faults < Faults /\ faults' = faults + 1 /\ bad' = TRUE /\ clean' = FALSE
  /\ UNCHANGED <<fs, exists, plan, inst, kills, healthy, start>> /\ UNCHANGED conf
  /\ \/ At("recover") /\ w # {} /\ Go("over", {}) /\ fail' = TRUE
     \/ At("make") /\ ~exists /\ Go("over", {}) /\ fail' = TRUE
     \* the run ends, after what was put aside has been put back
     \/ pc \in {"stage", "overwrite"} /\ \E p \in w :
          IF Careful THEN Go("undo", <<"back", (IF update THEN plan.outdated ELSE {}) \cup plan.over>>) /\ fail' = TRUE
          ELSE Go(pc, w \ {p}) /\ UNCHANGED fail
     \* a package that was being removed or put back is left as it is
     \/ At("undo") /\ plan.create /\ DOMAIN fs # {} /\ UNCHANGED fail /\ Go(IF Careful THEN "over" ELSE "forget", {})
     \/ At("undo") /\ ~plan.create /\ UNCHANGED fail /\ \E p \in w[2] :
          IF Careful THEN
            \/ Go("undo", <<w[1], w[2] \ {p}>>)
          ELSE Go("forget", {})
     \/ At("forget") /\ (\E d \in DOMAIN fs : d[1] # "act") /\ Go("over", {}) /\ UNCHANGED fail
Again == At("over") /\ healthy /\ ~fail /\ ~bad /\ UNCHANGED lvars

Step == Begin \/ Recover \/ Decide \/ Make \/ Staging \/ Overwriting \/ Work \/ Tarballs \/ Undo \/ Forget
Next == Step \/ Stop \/ Kill \/ Fault \/ Again
Spec == Init /\ [][Next]_lvars

\* ---------------------------------------------------------------- what must hold
Over == pc = "over"
\* leftovers of no run are there when a run is over (C13)
NoLeftovers == Over /\ ~bad => \A d \in DOMAIN fs : d[1] = "act"
\* what nobody asked for stays (C13)
OthersStay == \A p \in Others : lib0[p] # "none" => Act(p) \in DOMAIN fs /\ fs[Act(p)] = Full("old")
\* a run without failing packages, whatever came before (C14, C12)
Expect(p) == IF p \in Tars THEN Full("tar")
             ELSE IF lib0[p] = "none" \/ (update /\ lib0[p] = "older") THEN Full("new") ELSE Full("old")
Converges == Over /\ healthy /\ ~bad =>
   /\ DOMAIN fs = {Act(p) : p \in Repo \cup Tars} \cup {Act(p) : p \in {q \in Others : lib0[q] # "none"}}
   /\ \A p \in Repo \cup Tars : fs[Act(p)] = Expect(p)
\* a failed run that is not cut puts everything back (C11)
Restores == Over /\ fail /\ ~bad /\ ~norollback /\ (\A d \in DOMAIN start.fs : d[1] = "act" /\ start.fs[d].s = "full") => fs = start.fs /\ exists = start.exists
\* and without rollback what was installed stays (C11)
Stays == Over /\ fail /\ norollback => \A p \in inst : Act(p) \in DOMAIN fs /\ fs[Act(p)].s = "full"
\* nothing incomplete is ever taken for a package by a run that is over
NothingBroken == Over => \A d \in DOMAIN fs : d[1] = "act" \/ ~bad => fs[d].s = "full"
\* at no moment is a package lost that was there (C14, C29)
NothingLost == norollback \/ \A p \in DOMAIN lib0 : lib0[p] # "none" =>
   \/ Act(p) \in DOMAIN fs /\ fs[Act(p)].s = "full"
   \/ Bak(p) \in DOMAIN fs /\ fs[Bak(p)].s = "full"
=============================================================================
