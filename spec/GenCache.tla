------------------------------ MODULE GenCache ------------------------------
(***************************************************************************)
(* Histories of installs over one cache: locations that offer the same        *)
(* packages, most of them in the same version; configurations that change in  *)
(* one respect from run to run; cleaning in between.                          *)
(*   cx   location -> [src, bin]                                              *)
(*   cur  [ents, rver, c]: the repositories as configured, R, the rest        *)
(***************************************************************************)
EXTENDS GenInstall
VARIABLES cx, cur, steps
cvars == <<vars, cx, cur, steps>>
Locs == {"loc1", "LOC1", "loc12"}
CNames == <<"RA", "RB", "RAx">>

Entry(nm, loc) == TLCEval([name |-> nm, loc |-> loc, slash |-> IF Odds(15) THEN "/" ELSE "", suffix |-> Pick({"", "", "s1"}),
                           rtype |-> IF Odds(50) THEN "MPN" ELSE "", dtype |-> Pick({"", "", "source"})])
\* another location's records: most packages in the same version
Related(p, recs) == TLCEval([i \in DOMAIN recs |-> IF Odds(70) THEN recs[i]
                             ELSE LET v == TLCEval(Near(recs[i].vn)) IN [recs[i] EXCEPT !.vn = v, !.ver = VStr(v, {})]])
Contents(p, s) ==
  LET a == TLCEval(RecList(p, Names(p), <<4, 1, 2 + 0 * s>>))
      b == TLCEval(Related(p, a))
  IN TLCEval([l \in Locs |-> [src |-> IF l = "loc1" THEN a ELSE Related(p, a), bin |-> IF Odds(70) THEN b ELSE Related(p, b)]])
WorldOf(x, u) == [rver |-> u.rver, repos |-> [i \in DOMAIN u.ents |-> LET e == u.ents[i] IN
   [name |-> e.name, loc |-> e.loc, oid |-> "O" \o e.loc, boid |-> "O" \o e.loc \o e.suffix, slash |-> e.slash, suffix |-> e.suffix, rtype |-> e.rtype, dtype |-> e.dtype, kind |-> IF Profile.http > 0 THEN "http" ELSE "file",
    src |-> x[e.loc].src, bin |-> IF e.rtype = "MPN" THEN x[e.loc].bin ELSE <<>>]]]

RV == {<<4, 1, 2>>, <<4, 1, 3>>, <<4, 10, 1>>, <<4, 0, 5>>}
VaryEnts(es) ==
  LET i == TLCEval(Pick(DOMAIN es))
      k == TLCEval(Pick(1..9 + 0 * Len(es)))
      j == TLCEval(Pick(DOMAIN es))
      free == {CNames[x] : x \in 1..3} \ {es[x].name : x \in DOMAIN es}
  IN TLCEval(CASE k = 1 -> [es EXCEPT ![i].loc = Pick(Locs \ {@})]
      [] k = 2 -> [es EXCEPT ![i].slash = IF @ = "" THEN "/" ELSE ""]
      [] k = 3 -> [es EXCEPT ![i].suffix = IF @ = "" THEN "s1" ELSE ""]
      [] k = 4 -> [es EXCEPT ![i].rtype = IF @ = "" THEN "MPN" ELSE ""]
      [] k = 5 -> [[es EXCEPT ![i].loc = es[j].loc] EXCEPT ![j].loc = es[i].loc]
      [] k = 6 -> IF free = {} THEN [es EXCEPT ![i].dtype = IF @ = "" THEN "source" ELSE ""] ELSE [es EXCEPT ![i].name = Pick(free)]
      [] k = 7 -> [x \in DOMAIN es |-> es[Len(es) + 1 - x]]
      [] OTHER -> [es EXCEPT ![i].loc = IF @ = "loc1" THEN "LOC1" ELSE "loc1"])
Vary(u, x) ==
  LET k == TLCEval(Pick(1..100 + 0 * Len(u.ents)))
      q == TLCEval(Pick(Names(Profile)))
  IN TLCEval(CASE k <= 20 -> [u EXCEPT !.rver = Pick(RV \ {@})]
      [] k <= 32 -> [u EXCEPT !.c.cust = <<[pkg |-> q, repo |-> Pick({"", u.ents[1].name}), type |-> Pick({"source", "binary"}), sug |-> ""]>>]
      [] k <= 38 -> [u EXCEPT !.c.cust = <<>>]
      [] k <= 45 -> [u EXCEPT !.c.packages = SetSeq(Sub(Names(Profile), 60) \cup {q})]
      [] k <= 55 -> u
      [] OTHER -> [u EXCEPT !.ents = VaryEnts(@)])
\* the configuration with what can be asked of this world
Possible(u, x) ==
  LET ww == TLCEval(WorldOf(x, u))
      known == {k \in DOMAIN u.c.cust : u.c.cust[k].repo = "" \/ \E j \in DOMAIN u.ents : u.ents[j].name = u.c.cust[k].repo}
      cz == TLCEval([k \in 1..Cardinality(known) |-> u.c.cust[k]])
      c1 == TLCEval([u.c EXCEPT !.cust = cz])
      avail == TLCEval({q \in Names(Profile) : Select(ww, [ignore |-> <<>>, cust |-> cz], q).found})
      ok(t) == Range(t.dep) \cup Range(t.imp) \cup Range(t.lnk) \subseteq avail \cup BaseDeps
      req == Range(u.c.packages) \cap avail
  IN TLCEval([u EXCEPT !.c = [c1 EXCEPT !.packages = SetSeq(IF req = {} THEN avail ELSE req), !.tarballs = SelectSeq(@, ok)]])
\* which packages fail in a run, and how
Fails(s) == TLCEval(IF Odds(Profile.failstep + 0 * s) THEN [i \in {1} |-> [p |-> Pick(Names(Profile)), how |-> Pick({"bf", "if"})]] ELSE <<>>)
Inst(u, x) == LET v == TLCEval(Possible(u, x)) IN TLCEval([e |-> "inst", w |-> WorldOf(x, v), c |-> v.c, fresh |-> Odds(85), tars |-> Pick({"all", "all", "first", "none"}), fails |-> Fails(Len(u.ents)), norb |-> Odds(20)])
CleanStep(s) == TLCEval([e |-> "clean", what |-> Pick({"cache", "cache", "cache", "cache", "all", "none"}), src |-> Odds(25 + 0 * s), bin |-> Odds(25),
                 sel |-> Pick({"all", "all", "one", "one", "two", "absent", "prefix", "name", "mixed", "hash", "empty"}), pick |-> Pick(1..1000), nowhere |-> Odds(20),
                 tars |-> IF Odds(35) THEN "gone" ELSE Pick({"all", "first", "none"})])

First(x, s) ==
  LET n == TLCEval(Pick(1..2 + 0 * s))
      es == TLCEval([i \in 1..n |-> Entry(CNames[i], Pick(Locs))])
      u0 == TLCEval([ents |-> es, rver |-> Pick(RV), c |-> <<>>])
  IN TLCEval([u0 EXCEPT !.c = RandCfg(Profile, WorldOf(x, u0))])
After(u, x, first) == TLCEval(IF first THEN u ELSE IF Odds(15) THEN Vary(Vary(u, x), x) ELSE Vary(u, x))

CInit == Init /\ cx = <<>> /\ cur = <<>> /\ steps = <<>>
GenC0 == stage = 0 /\ stage' = 1 /\ cx' = Contents(Profile, stage) /\ UNCHANGED <<w, c, lib, pol, cur, steps>>
GenC1 == stage = 1 /\ stage' = 2
         /\ cur' = First(cx, stage)
         /\ UNCHANGED <<w, c, lib, pol, cx, steps>>
\* a step at a time
GenStep == stage \in 2..(Profile.steps + 1) /\ stage' = stage + 1
           /\ (IF Odds(Profile.cleans) /\ steps # <<>> THEN steps' = Append(steps, CleanStep(stage)) /\ UNCHANGED cur
              ELSE LET u == After(cur, cx, steps = <<>>)
                   IN cur' = u /\ steps' = Append(steps, Inst(u, cx)))
           /\ UNCHANGED <<w, c, lib, pol, cx>>
GenOut == stage = Profile.steps + 2 /\ stage' = stage + 1 /\ UNCHANGED <<w, c, lib, pol, cx, cur, steps>>
          /\ PrintT("SCN " \o ToJson([cx |-> cx, steps |-> steps, defcache |-> Odds(30 + 0 * stage), junk |-> Odds(50), threads |-> Pick(1..4)]))
CNext == GenC0 \/ GenC1 \/ GenStep \/ GenOut
ProfCache == [Base0 EXCEPT !.n = 4, !.edge = 20, !.repos = 2, !.mpn = 50, !.delay = 0, !.gone = 0, !.tarballs = 25, !.roots = 60, !.stdeps = 0, !.steps = 6, !.slash = 0]
\* over http, with failing packages and some cleaning
ProfReuse == [ProfCache EXCEPT !.http = 100, !.failstep = 30, !.cleans = 15, !.steps = 7, !.tarballs = 15]
ProfCleaning == [ProfCache EXCEPT !.tarballs = 75, !.cleans = 45, !.steps = 8]
=============================================================================
