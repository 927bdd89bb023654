----------------------------- MODULE CacheImpl -----------------------------
(***************************************************************************)
(* How one package gets into the cache and out of it again, run after run:    *)
(* looking it up, downloading into a temporary file that is moved into place   *)
(* when it is complete, building, copying the build under a provisional name    *)
(* that is moved into place, cleaning; transfers fail or are cut short, builds   *)
(* fail, the program is killed between any two steps.                             *)
(*                                                                                *)
(*  A request is what a run has decided to install: the repository's name, its     *)
(*  address and suffix, the type, the version, and the R minor version in use.       *)
(*  KeyOn: the parts of a request that decide where in the cache its files lie         *)
(*  Atomic: files get their names only when they are complete                           *)
(*  Strict: an answer other than the file itself is an error                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS KeyOn, Atomic, Strict, Kills, Troubles, Runs,
  Keep   \* builds are put into the cache

VARIABLES files, req, pc, used, kills, troubles, runs, got,
          held   \* requests that an earlier run has carried out, as far as nothing of theirs was cleaned away
vars == <<files, req, pc, used, kills, troubles, runs, got, held>>

Requests == [name : {"A", "B"}, addr : {"u", "v"}, suf : {"", "s"}, type : {"source", "binary"}, ver : {1, 2}, minor : {"4.1", "4.2"}]
\* what the location of a request serves (names of repositories mean nothing to it; the suffix matters
\* to binaries only, and so does R's minor version)
Genuine(q) == [addr |-> q.addr, type |-> q.type, ver |-> q.ver, suf |-> IF q.type = "binary" THEN q.suf ELSE "", by |-> IF q.type = "binary" THEN q.minor ELSE ""]
Build(x, q) == [x EXCEPT !.by = q.minor]
\* what may be installed for a request: the repository's binary, or a build of its source by this R
Wanted(q) == IF q.type = "binary" THEN Genuine(q) ELSE Build(Genuine(q), q)

Part(q, f) == IF f \in KeyOn THEN q[f] ELSE "-"
Key(q, kind) == <<kind, Part(q, "name"), Part(q, "addr"), Part(q, "suf"), IF "type" \in KeyOn THEN kind ELSE IF kind = "src" THEN "src" ELSE "bin",
                  q.ver, IF kind = "src" THEN "-" ELSE Part(q, "minor")>>
Slot(q, kind) == Tail(Key(q, kind))
At(q, kind) == Slot(q, kind) \in DOMAIN files
There(q, kind) == files[Slot(q, kind)]
Put(s, x) == [y \in DOMAIN files \cup {s} |-> IF y = s THEN x ELSE files[y]]
Whole(c) == [c |-> c, whole |-> TRUE]
Torn(c) == [c |-> c, whole |-> FALSE]
Page == [c |-> [addr |-> "error page"], whole |-> TRUE]

Init == files = <<>> /\ req = [x |-> 0] /\ pc = "idle" /\ used = <<>> /\ kills = 0 /\ troubles = 0 /\ runs = 0 /\ got = <<>> /\ held = {}
Go(p) == pc' = p
Start == /\ pc = "idle" /\ runs < Runs /\ runs' = runs + 1 /\ req' \in Requests /\ Go("look") /\ used' = <<>> /\ got' = <<>>
         /\ UNCHANGED <<files, kills, troubles>>
\* looking it up: a build or binary first, else the file of the repository
Kind(q) == IF q.type = "binary" THEN "bin" ELSE "src"
Look == /\ pc = "look"
        /\ IF req.type = "source" /\ At(req, "built") THEN used' = There(req, "built") /\ Go("install")
           ELSE IF At(req, Kind(req)) THEN used' = There(req, Kind(req)) /\ Go(IF req.type = "binary" THEN "install" ELSE "build")
           ELSE UNCHANGED used /\ Go("fetch")
        /\ UNCHANGED <<files, req, kills, troubles, runs, got>>
\* the transfer, into a temporary file or into its place
Fetch == /\ pc = "fetch"
         /\ LET s == Slot(req, Kind(req)) IN
            \/ got' = Whole(Genuine(req)) /\ UNCHANGED troubles /\ Go("place") /\ (IF Atomic THEN UNCHANGED files ELSE files' = Put(s, Torn(Genuine(req))))
            \/ troubles < Troubles /\ troubles' = troubles + 1 /\ got' = Torn(Genuine(req))   \* cut short
               /\ (IF Strict THEN Go("idle") ELSE Go("place")) /\ (IF Atomic THEN UNCHANGED files ELSE files' = Put(s, Torn(Genuine(req))))
            \/ troubles < Troubles /\ troubles' = troubles + 1 /\ got' = Page                  \* another answer
               /\ (IF Strict THEN Go("idle") ELSE Go("place")) /\ UNCHANGED files
         /\ UNCHANGED <<req, used, kills, runs>>
Place == /\ pc = "place" /\ files' = Put(Slot(req, Kind(req)), got) /\ used' = got /\ Go(IF req.type = "binary" THEN "install" ELSE "build")
         /\ UNCHANGED <<req, kills, troubles, runs, got>>
\* R works on what it is given, or refuses it
DoBuild == /\ pc = "build"
           /\ \/ used.whole /\ used.c # Page.c /\ used' = Whole(Build(used.c, req)) /\ Go("install") /\ UNCHANGED troubles
              \/ troubles < Troubles /\ troubles' = troubles + 1 /\ Go("idle") /\ UNCHANGED used
              \/ (~used.whole \/ used.c = Page.c) /\ Go("refused") /\ UNCHANGED <<used, troubles>>
           /\ UNCHANGED <<files, req, kills, runs, got>>
Install == /\ pc = "install"
           /\ Go(IF ~used.whole \/ used.c = Page.c THEN "refused" ELSE IF Keep /\ req.type = "source" /\ ~At(req, "built") THEN "keep" ELSE "done")
           /\ UNCHANGED <<files, req, used, kills, troubles, runs, got>>
\* the build is kept
KeepPart == /\ pc = "keep" /\ Go("keep2") /\ (IF Atomic THEN UNCHANGED files ELSE files' = Put(Slot(req, "built"), Torn(used.c)))
            /\ UNCHANGED <<req, used, kills, troubles, runs, got>>
KeepAll == /\ pc = "keep2" /\ files' = Put(Slot(req, "built"), used) /\ Go("done") /\ UNCHANGED <<req, used, kills, troubles, runs, got>>
Finish == pc \in {"done", "refused"} /\ Go("idle") /\ held' = (IF pc = "done" THEN held \cup {req} ELSE held) /\ UNCHANGED <<files, req, used, kills, troubles, runs, got>>
Kill == /\ pc \notin {"idle", "done", "refused"} /\ kills < Kills /\ kills' = kills + 1 /\ Go("idle") /\ UNCHANGED <<files, req, used, troubles, runs, got>>
CleanSome == /\ pc = "idle" /\ files # <<>> /\ \E s \in DOMAIN files : files' = [x \in DOMAIN files \ {s} |-> files[x]]
                                                            /\ held' = {q \in held : s # Slot(q, Kind(q)) /\ s # Slot(q, "built")}
             /\ UNCHANGED <<req, pc, used, kills, troubles, runs, got>>
Next == ((Start \/ Look \/ Fetch \/ Place \/ DoBuild \/ Install \/ KeepPart \/ KeepAll \/ Kill) /\ UNCHANGED held) \/ Finish \/ CleanSome
Spec == Init /\ [][Next]_vars

\* what is installed is what was selected, built by the R in use (C16)
RightContent == pc \in {"keep", "done"} => used.whole /\ used.c = Wanted(req)
\* nothing that goes wrong makes a later run fail (C17)
NeverPoisoned == pc # "refused"
\* what was fetched and built once is used again (C30)
UsedAgain == /\ pc = "fetch" => req \notin held
             /\ pc = "build" => req \notin held
CacheWhole == Atomic /\ Strict => \A s \in DOMAIN files : files[s].whole /\ files[s].c # Page.c
=============================================================================
