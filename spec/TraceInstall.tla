---------------------------- MODULE TraceInstall ----------------------------
(***************************************************************************)
(* Checks recorded runs of pkgr against Install.  The trace (one JSON object *)
(* per line, file named by the environment variable TRACE) is a sequence of  *)
(* runs; a step that Install does not allow is reported and the rest of that *)
(* run skipped.                                                              *)
(***************************************************************************)
EXTENDS Install, Inspect, Meta, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, skip,
          rep   \* what the plan command reported before this run, for the same inputs
tvars == <<vars, i, skip, rep>>

E == Trace[i]

\* library entries (sequences of [dir, kind, pkg, ver, vn, marker, hash]) as functions
Ent(s, d) == s[CHOOSE k \in DOMAIN s : s[k].dir = d]
PkgDirs(s) == {s[k].dir : k \in {j \in DOMAIN s : s[j].kind = "pkg" /\ s[j].pkg = s[j].dir}}
AsLib(s) == [d \in PkgDirs(s) |-> LET e == Ent(s, d) IN [ver |-> e.ver, vn |-> e.vn, marker |-> e.marker]]
AsFull(s) == [d \in {s[k].dir : k \in DOMAIN s} |-> Ent(s, d).hash]
\* library as listed by an R call: sequences of [d, v, m]
Listed(s) == [d \in {s[k].d : k \in DOMAIN s} |-> LET e == s[CHOOSE k \in DOMAIN s : s[k].d = d] IN [ver |-> e.v, marker |-> e.m]]

NoRep == [on |-> FALSE]
\* a report: sel (sequence of [pkg, repo, type, ver]), ninst, nupd, upd (sequence of [pkg, ver]),
\* new (names announced as new), hasnew
AsRep(x) ==
  LET SelOf(p) == x.sel[CHOOSE k \in DOMAIN x.sel : x.sel[k].pkg = p]
      UpdOf(p) == x.upd[CHOOSE k \in DOMAIN x.upd : x.upd[k].pkg = p]
  IN [on |-> TRUE, sel |-> [p \in {x.sel[k].pkg : k \in DOMAIN x.sel} |-> SelOf(p)], ninst |-> x.ninst, nupd |-> x.nupd,
      upd |-> [p \in {x.upd[k].pkg : k \in DOMAIN x.upd} |-> UpdOf(p).ver], new |-> Range(x.new), hasnew |-> x.hasnew,
      once |-> Cardinality({x.sel[k].pkg : k \in DOMAIN x.sel}) = Len(x.sel)]

OidOf(name) == r.w.repos[CHOOSE k \in DOMAIN r.w.repos : r.w.repos[k].name = name].oid
UrlOf(name) == r.w.repos[CHOOSE k \in DOMAIN r.w.repos : r.w.repos[k].name = name].url
RepMarker(p) == OidOf(rep.sel[p].repo) \o "/" \o (IF rep.sel[p].type = "source" THEN "src" ELSE "bin") \o "/" \o p \o "_" \o rep.sel[p].ver

\* C05: an R call of the install carries out what was reported
AsReported(k, p, x) ==
  rep.on /\ k # "T" => p \in DOMAIN rep.sel /\ x.ver = rep.sel[p].ver /\ x.marker = RepMarker(p)

\* C05: the install as a whole did
ReportKept(l, outcome) ==
  rep.on /\ r.cmd = "install" /\ outcome = "ok" /\ failed = {} =>
  LET got == inst \ r.tars
      both == DOMAIN rep.sel \cap r.tars
  IN /\ rep.once
     /\ DOMAIN rep.sel \subseteq DOMAIN l
     /\ got \subseteq DOMAIN rep.sel
     /\ both = {} => /\ rep.ninst = Cardinality(got) + Cardinality(r.tars)
                     /\ rep.nupd = Cardinality(got \cap DOMAIN r.lib0)
     /\ rep.nupd > 0 => \A p \in DOMAIN rep.upd \ r.tars : p \in DOMAIN l /\ l[p].ver = rep.upd[p] /\ p \in got
     /\ rep.nupd > 0 => Cardinality(DOMAIN rep.upd) = rep.nupd
     /\ rep.hasnew => rep.new \ ({""} \cup r.tars) = got \ DOMAIN r.lib0

Report(what) == PrintT(<<"REJECTED", E.id, i, what, Checks>>)

NoRun == [cmd |-> "none"]
TraceInit == i = 1 /\ skip = FALSE /\ r = NoRun /\ lib = <<>> /\ running = {} /\ built = {} /\ inst = {}
             /\ failed = {} /\ begun = {} /\ aborted = FALSE /\ rep = NoRep

BeginRun ==
  /\ E.e = "run"
  /\ r' = NewRun(E.cmd, E.w, E.c, AsLib(E.lib), AsFull(E.lib), E.ex, E.procs)
  /\ lib' = AsLib(E.lib)
  /\ running' = {} /\ built' = {} /\ inst' = {} /\ failed' = {} /\ begun' = {} /\ aborted' = FALSE
  /\ skip' = (E.cont /\ skip)
  /\ rep' = IF E.cont THEN rep ELSE NoRep

Start ==
  /\ E.e = "s" /\ ~skip
  /\ LET x == [ver |-> E.ver, marker |-> E.marker] IN
     IF CanStart(E.k, E.p, x, Listed(E.ls), E.scratch) /\ G("C05", AsReported(E.k, E.p, x))
     THEN running' = running \cup {Active(E.k, E.p)} /\ begun' = begun \cup {Active(E.k, E.p)} /\ skip' = FALSE
     ELSE Report("start") /\ skip' = TRUE /\ UNCHANGED <<running, begun>>
  /\ UNCHANGED <<r, lib, built, inst, failed, aborted, rep>>

Finish ==
  /\ E.e = "f" /\ ~skip
  /\ AfterEnd(E.k, E.p, E.ok, <<>>)
  /\ UNCHANGED <<r, lib, begun, aborted, skip, rep>>

\* the plan command's report
Reported ==
  /\ E.e = "report" /\ ~skip
  /\ rep' = AsRep(E)
  /\ UNCHANGED <<vars, skip>>

\* a dependency listing
Inspected ==
  /\ E.e = "inspect" /\ ~skip
  /\ IF G("C26", InspectOK(r.plan, E)) THEN skip' = FALSE ELSE Report("inspect " \o E.mode) /\ skip' = TRUE
  /\ UNCHANGED <<vars, rep>>

\* the DESCRIPTION of a package after the run (orig: as the R call that installed it left it)
Described ==
  /\ E.e = "meta" /\ ~skip
  /\ LET p == E.p
         ok == IF p \in r.tars THEN MetaOK(E.orig, E.fin, E.version, "source", E.path, "IndividualPackage")
               ELSE p \in r.plan.plan /\ LET s == r.plan.sel[p]
                                            \* taken from an earlier build: a binary
                                            t == IF Active("B", p) \in begun THEN s.type ELSE "binary"
                                        IN MetaOK(E.orig, E.fin, E.version, t, UrlOf(s.repo), s.repo)
     IN IF G("C25", ok) THEN skip' = FALSE ELSE Report("DESCRIPTION of " \o p) /\ skip' = TRUE
  /\ UNCHANGED <<vars, rep>>

\* which packages pkgr says it installed; st: the packages that carry its mark, un: the others
Origins ==
  /\ E.e = "origin" /\ ~skip
  /\ IF G("C25", OriginsOK(E.st, E.un, E.outcome, E.pkgr, E.rest)) THEN skip' = FALSE ELSE Report("origins") /\ skip' = TRUE
  /\ UNCHANGED <<vars, rep>>

End ==
  /\ E.e = "end" /\ ~skip
  /\ IF /\ CanEnd(AsLib(E.lib), E.ex, AsFull(E.lib), E.outcome)
        /\ G("C05", ReportKept(AsLib(E.lib), E.outcome))
        /\ G("C04", r.cmd # "install" => E.outside = E.outside0)
        /\ G("C23", E.outside = E.outside0)
        /\ G("C31", E.outside = E.outside0)
        \* packages the run did not install keep everything, their DESCRIPTION included
        /\ G("C25", \A d \in DOMAIN r.full0 \cap DOMAIN AsFull(E.lib) : d \notin inst \cup failed => AsFull(E.lib)[d] = r.full0[d])
     THEN skip' = FALSE
     ELSE Report("end") /\ skip' = TRUE
  /\ UNCHANGED <<vars, rep>>

Skipped == E.e # "run" /\ skip /\ UNCHANGED <<vars, skip, rep>>

TraceNext == i <= Len(Trace) /\ i' = i + 1 /\ (BeginRun \/ Start \/ Finish \/ Reported \/ Inspected \/ Described \/ Origins \/ End \/ Skipped)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Pos == i
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
