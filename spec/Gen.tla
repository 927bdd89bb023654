-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Scenario generator: behaviours of this module, taken by                  *)
(* tlc -simulate, each end with one printed scenario: repositories, R        *)
(* version, configuration, prior library and the behaviour of every build.   *)
(* The profile sets the odds (in percent).                                   *)
(***************************************************************************)
EXTENDS Integers, Resolve, Json, Randomization

CONSTANT Profile
VARIABLES stage, w, c, lib, pol

vars == <<stage, w, c, lib, pol>>

Pick(S) == RandomElement(S)
Odds(p) == RandomElement(1..100) <= p
\* random subset: every element with odds p
Sub(S, p) == {x \in S : Odds(p)}
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == Pick(S) IN
                TLCEval(LET y == TLCEval(x) IN <<y>> \o SetSeq(S \ {y}))

\* ---------------------------------------------------------------- defaults
Base0 == [n |-> 6, edge |-> 25, sug |-> 10, cyc |-> 0, repos |-> 2, mpn |-> 0, dtype |-> 0, gone |-> 5,
          stdeps |-> 10, rec |-> 0, ignore |-> 0, norec |-> 0, suggests |-> 0, custrepo |-> 0, custtype |-> 0,
          custsug |-> 0, req |-> 0, reqodd |-> 0, dup |-> 0, path |-> 0, libex |-> 50, inlib |-> 0, extra |-> 0, junk |-> 0, fail |-> 0,
          failrun |-> 0, debris |-> 0, nobin |-> 0, delay |-> 60, maxth |-> 4, noupdate |-> 0, norollback |-> 0, tarballs |-> 0,
          descs |-> 0, strict |-> 0, cached |-> 0, relib |-> 20, longver |-> 0, missing |-> 0, slash |-> 10,
          custother |-> 0, http |-> 0, okroots |-> 85, ignreq |-> 0, roots |-> 40, vmin |-> 2, noth |-> 0, slow |-> 0, nolib |-> 0, hub |-> 0, twin |-> 25, steps |-> 0, cleans |-> 0, failstep |-> 0]

\* ---------------------------------------------------------------- versions
\* s: separators written as dashes (positive), components written with a leading zero (negative)
VStr(v, s) ==
  LET RECURSIVE F(_)
      F(i) == IF i > Len(v) THEN ""
              ELSE (IF i = 1 THEN "" ELSE IF i \in s THEN "-" ELSE ".") \o (IF (0 - i) \in s THEN "0" ELSE "") \o ToString(v[i]) \o F(i + 1)
  IN F(1)

Comps == {0, 1, 2, 3, 9, 10, 11, 20, 100, 65537, 20190301}
RandVer(p) ==
  LET len == TLCEval(IF Odds(p.longver) THEN Pick(2..5) ELSE Pick(p.vmin..3))
  IN TLCEval([i \in 1..len |-> IF i = len THEN Pick(Comps \ {0}) ELSE Pick(Comps)])
\* which separators are dashes, which components have a leading zero
RandSep(v) == TLCEval((IF Odds(30) THEN {Pick(1..Len(v))} ELSE {}) \cup (IF Odds(25) THEN {0 - i : i \in Sub(1..Len(v), 50)} ELSE {}))

\* a version related to v: equal, or differing in one component, or in length
Near(v) ==
  LET i == TLCEval(Pick(1..Len(v)))
      k == TLCEval(Pick(1..6))
  IN TLCEval(
     CASE k = 1 -> v
       [] k = 2 -> [v EXCEPT ![i] = @ + 1]
       [] k = 3 -> [v EXCEPT ![i] = IF @ > 0 THEN @ - 1 ELSE @]
       [] k = 4 -> IF Len(v) < 5 THEN Append(v, Pick(1..12)) ELSE [v EXCEPT ![5] = @ + 9]
       [] k = 5 -> IF Len(v) > 2 THEN SubSeq(v, 1, Len(v) - 1) ELSE [v EXCEPT ![2] = @ + 8]
       [] k = 6 -> IF i < Len(v) THEN [[v EXCEPT ![i] = @ + 1] EXCEPT ![Len(v)] = IF @ > 0 THEN @ - 1 ELSE 0]
                   ELSE [v EXCEPT ![i] = IF @ < 1000000 THEN @ * 10 ELSE @ + 1000000])

RVers == {<<4, 1, 2>>, <<4, 0, 5>>, <<3, 6, 3>>, <<4, 2, 0>>, <<4, 10, 1>>}
NoReq == [op |-> "none", vn |-> <<0>>, str |-> ""]
Req(op, v) == [op |-> op, vn |-> v, str |-> VStr(v, {})]
Ops == {">=", ">", "<", "<=", "==", "!="}
\* any requirement, concentrated around the running version
ReqNear(rv) == {rv, <<rv[1]>>, <<rv[1], rv[2]>>, <<rv[1] + 1>>, <<rv[1], rv[2] + 1>>, <<rv[1] - 1>>,
                <<rv[1], rv[2], rv[3] + 1>>, <<rv[1], rv[2] + 9>>, <<rv[1] - 1, 9, 9>>,
                <<rv[1], rv[2], IF rv[3] > 0 THEN rv[3] - 1 ELSE 0>>, <<rv[1], IF rv[2] > 0 THEN rv[2] - 1 ELSE 0, 10>>}
RandReq(p, rv) ==
  IF ~Odds(p.req) THEN NoReq
  ELSE IF Odds(p.reqodd) THEN
         (IF Odds(20) THEN [op |-> "bare", vn |-> <<0>>, str |-> ""]
          ELSE LET o == Pick(Ops) v == Pick(ReqNear(rv)) IN TLCEval(Req(o, v)))
  ELSE TLCEval(LET v == Pick({<<3, 5>>, <<3, 6, 0>>, <<2, 10>>, rv}) IN Req(">=", v))

\* ---------------------------------------------------------------- universe
Pool == <<"pa", "pb", "pc", "pd", "pe", "pf", "pg", "ph", "pi", "pj", "pk", "pl">>
\* names that differ in their letters, in case only, or where one begins with the other
RepoNames == {<<"RA", "RB", "RC">>, <<"RA", "RAX", "ra">>, <<"RAX", "RA", "ra">>, <<"ra", "RA", "Ra">>, <<"RA-1", "Ra-1", "RA.1">>, <<"RA", "ra", "R">>}

Names(p) == {Pool[i] : i \in 1..p.n} \cup (IF p.rec > 0 THEN {"Matrix", "MASS"} ELSE {})
Idx(q) == IF q = "Matrix" THEN 0 ELSE IF q = "MASS" THEN -1 ELSE CHOOSE i \in DOMAIN Pool : Pool[i] = q
Below(p, q) == {x \in Names(p) : Idx(x) < Idx(q)}
BaseDeps == {"stats", "utils", "methods", "tools"}

DepSet(p, q, odds) ==
  TLCEval(Sub(Below(p, q), odds)
          \cup (IF Odds(p.stdeps) THEN {Pick(BaseDeps)} ELSE {})
          \cup (IF Odds(p.gone) THEN {Pick({"nowhere1", "nowhere2"})} ELSE {})
          \cup (IF Odds(p.cyc) THEN {Pick(Names(p))} ELSE {}))
SugSet(p, q) == TLCEval(Sub(Names(p) \ {q}, p.sug) \cup (IF Odds(p.stdeps) /\ p.sug > 0 THEN {Pick(BaseDeps)} ELSE {}))

\* the dependencies of q in one repository's record
RandRec(p, q, rv, v) ==
  LET k == TLCEval(Pick(1..3))
      d1 == DepSet(p, q, p.edge)
      d2 == DepSet(p, q, p.edge \div 3)
      d3 == DepSet(p, q, p.edge \div 4)
      vv == TLCEval(v)
      x1 == TLCEval(d1)
      hub == TLCEval(p.hub > 0 /\ q = Pool[p.n])
  IN IF hub THEN TLCEval([pkg |-> q, ver |-> VStr(vv, {}), vn |-> vv, dep |-> <<>>, imp |-> SetSeq(Names(p) \ {q}), lnk |-> <<>>, sug |-> <<>>,
                          rc |-> NoReq, path |-> ""])
     ELSE TLCEval([pkg |-> q, ver |-> VStr(vv, RandSep(vv)), vn |-> vv,
      dep |-> SetSeq(IF k = 1 THEN x1 ELSE d2), imp |-> SetSeq(IF k # 1 THEN x1 ELSE d2),
      lnk |-> SetSeq(d3), sug |-> SetSeq(SugSet(p, q)),
      rc |-> RandReq(p, rv), path |-> IF Odds(p.path) THEN "4.9.0/Recommended" ELSE ""])

\* two records of one package with complementary requirements on R, or a special build beside
\* the ordinary one
DupRecs(p, q, rv) ==
  LET v1 == TLCEval(RandVer(p))
      v2 == TLCEval([v1 EXCEPT ![1] = @ + 1])
      b  == TLCEval(Pick({rv, <<rv[1], rv[2] + 1>>, <<rv[1]>>, <<rv[1] + 1>>}))
      r1 == TLCEval([RandRec(p, q, rv, v1) EXCEPT !.rc = Req("<", b), !.path = ""])
      r2 == TLCEval([RandRec(p, q, rv, v2) EXCEPT !.rc = Req(">=", b), !.path = ""])
      r3 == TLCEval([RandRec(p, q, rv, v2) EXCEPT !.rc = NoReq, !.path = "4.9.0/Recommended"])
      r4 == TLCEval([RandRec(p, q, rv, v1) EXCEPT !.rc = NoReq, !.path = ""])
  IN TLCEval(CASE Pick(1..4) = 1 -> <<r2, r1>> [] Pick(1..3) = 1 -> <<r3, r4>> [] Pick(1..2) = 1 -> <<r4, r3>> [] OTHER -> <<r1, r2>>)

RECURSIVE RecList(_, _, _)
RecList(p, S, rv) ==
  IF S = {} THEN <<>>
  ELSE LET q == TLCEval(Pick(S))
           here == TLCEval(IF Odds(p.dup) THEN DupRecs(p, q, rv) ELSE <<RandRec(p, q, rv, RandVer(p))>>)
       IN TLCEval(here \o RecList(p, S \ {q}, rv))

RandRepo(p, i, nr, rv, names) ==
  LET here == TLCEval(IF nr = 1 THEN Names(p) ELSE Sub(Names(p), 65))
      mpn  == TLCEval(Odds(p.mpn))
      bh   == TLCEval(IF Odds(50) THEN here ELSE Sub(Names(p), 60))
  IN TLCEval([name |-> names[i], loc |-> "loc" \o ToString(i), oid |-> "O" \o ToString(i), boid |-> "O" \o ToString(i),
      rtype |-> IF mpn THEN "MPN" ELSE "",
      dtype |-> IF Odds(p.dtype) THEN (IF mpn THEN Pick({"source", "binary"}) ELSE "source") ELSE "",
      slash |-> IF Odds(p.slash) THEN "/" ELSE "",
      kind |-> IF Odds(p.http) THEN "http" ELSE "file",
      src |-> RecList(p, here, rv), bin |-> IF mpn THEN RecList(p, bh, rv) ELSE <<>>])

\* records that agree with those of the same package elsewhere (a mirror; binaries of the sources there)
Alike(p, recs, others) ==
  TLCEval([i \in DOMAIN recs |->
     LET js == {j \in DOMAIN others : others[j].pkg = recs[i].pkg}
     IN IF js # {} /\ Odds(p.twin) THEN others[Pick(js)] ELSE recs[i]])
Twins(p, repos) ==
  LET a == TLCEval([i \in DOMAIN repos |-> IF i = 1 THEN repos[1] ELSE [repos[i] EXCEPT !.src = Alike(p, @, repos[1].src)]])
  IN TLCEval([i \in DOMAIN a |-> [a[i] EXCEPT !.bin = Alike(p, @, a[i].src)]])
RandWorld(p) ==
  LET rv == TLCEval(IF p.req > 0 THEN Pick(RVers) ELSE <<4, 1, 2>>)
      nr == TLCEval(Pick(1..p.repos))
      nn == TLCEval(Pick(RepoNames))
      rs == TLCEval([i \in 1..nr |-> TLCEval(RandRepo(p, i, nr, rv, nn))])
  IN TLCEval([rver |-> rv, repos |-> Twins(p, rs)])

\* ---------------------------------------------------------------- configuration
RandCust(p, ww, ig) ==
  LET sum == p.custrepo + p.custtype + p.custsug + p.custother
      S == TLCEval(Sub(Names(p), sum) \cup (IF sum > 0 THEN Sub(ig \cap Names(p), 50) ELSE {}))
      one(q) == TLCEval([pkg |-> q,
                 repo |-> IF p.custrepo > 0 /\ Odds(55) THEN (IF Odds(3) THEN "Nowhere" ELSE ww.repos[Pick(DOMAIN ww.repos)].name) ELSE "",
                 type |-> IF p.custtype > 0 /\ Odds(IF p.custtype >= 50 THEN 75 ELSE 40) THEN (IF Odds(2) THEN Pick({"src", "sources", "both"}) ELSE Pick({"source", "binary"})) ELSE "",
                 sug |-> IF p.custsug > 0 /\ Odds(60) THEN Pick({"true", "false"}) ELSE ""])
      sq == TLCEval(SetSeq(S))
  IN TLCEval([i \in DOMAIN sq |-> one(sq[i])])

Extra(p, kind, i) ==
  LET d == TLCEval(Sub(Names(p), 25))
      v == TLCEval(RandVer(p))
      own == TLCEval(IF kind = "tar" /\ Odds(60) THEN "tb" \o ToString(i) ELSE IF kind = "tar" THEN Pick(Names(p)) ELSE "proj" \o ToString(i))
      e == TLCEval(d \ {own})
      a == TLCEval(Sub(e, 40)) b == TLCEval(Sub(e \ a, 50))
  IN TLCEval([pkg |-> own, ver |-> VStr(v, {}), vn |-> v, dep |-> SetSeq(a), imp |-> SetSeq(b),
      lnk |-> SetSeq((e \ a) \ b), sug |-> SetSeq(Sub(Names(p) \ {own}, IF kind = "tar" THEN 15 ELSE 10)), rc |-> NoReq, path |-> ""])

DistinctPkgs(s) == \A i, j \in DOMAIN s : i # j => s[i].pkg # s[j].pkg

RandCfg(p, ww) ==
  LET roots == TLCEval(Sub(Names(p), p.roots))
      roots2 == TLCEval(IF roots = {} THEN {Pick(Names(p))} ELSE roots)
      ig == TLCEval(Sub(Names(p) \cup {"absentpkg"}, p.ignore))
      tb == TLCEval([i \in 1..(IF Odds(p.tarballs) THEN Pick(1..2) ELSE 0) |-> Extra(p, "tar", i)])
      ds == TLCEval([i \in 1..(IF Odds(p.descs) THEN Pick(1..2) ELSE 0) |-> Extra(p, "desc", i)])
      cz == TLCEval(RandCust(p, ww, ig))
      avail == TLCEval({q \in (IF p.hub > 0 THEN roots2 \cup {Pool[p.n]} ELSE roots2) : Select(ww, [ignore |-> <<>>, cust |-> cz], q).found})
      roots3 == TLCEval(IF Odds(p.okroots) THEN avail ELSE roots2)
      all == TLCEval(SetSeq((IF Odds(p.ignreq) THEN roots3 ELSE roots3 \ ig)
                   \cup (IF Odds(p.missing) THEN {"nowhere1"} ELSE {})
                   \cup (IF Odds(p.stdeps) THEN {Pick(BaseDeps)} ELSE {})))
  IN TLCEval([packages |-> all, ignore |-> SetSeq(ig), suggests |-> Odds(p.suggests), norec |-> Odds(p.norec),
      cust |-> cz, tarballs |-> IF DistinctPkgs(tb) THEN tb ELSE <<tb[1]>>, descs |-> ds,
      threads |-> IF Odds(p.noth) THEN 0 - Pick(0..2) ELSE Pick(1..p.maxth), update |-> ~Odds(p.noupdate), norollback |-> Odds(p.norollback),
      strict |-> Odds(p.strict), rellib |-> Odds(p.relib)])

\* ---------------------------------------------------------------- library
LibEnt(q, v, m) == [dir |-> q, kind |-> "pkg", pkg |-> q, vn |-> v, ver |-> VStr(v, RandSep(v)), marker |-> m]
RandLib(p, ww, cc) ==
  LET pl == TLCEval(PlanOf(ww, cc))
      in == TLCEval(Sub(Names(p), p.inlib))
      tbin == TLCEval({cc.tarballs[i].pkg : i \in {j \in DOMAIN cc.tarballs : Odds(p.inlib)}})
      ex == TLCEval(Sub({"other1", "other2", "zz.old"}, p.extra))
      \* a package of the plan: near the offered version; another one: near what some repository offers
      ver(q) == TLCEval(IF q \in pl.plan THEN Near(pl.sel[q].rec.vn)
                ELSE LET s == Select(ww, cc, q) IN IF s.found THEN Near(s.rec.vn) ELSE RandVer(p))
      S == TLCEval(IF Odds(p.nolib) THEN {} ELSE in \cup tbin \cup ex)
      sq == TLCEval(SetSeq(S))
  IN TLCEval([exists |-> S # {} \/ Odds(p.libex),
      ents |-> [i \in DOMAIN sq |-> LET v == TLCEval(ver(sq[i])) IN LibEnt(sq[i], v, "pre/" \o sq[i])],
      junk |-> IF Odds(p.junk) THEN Pick({"dir", "file", "both"}) ELSE ""])

\* ---------------------------------------------------------------- builds
RandPol(p, ww, cc) ==
  LET pl == TLCEval(PlanOf(ww, cc))
      D == TLCEval(pl.plan \cup {cc.tarballs[i].pkg : i \in DOMAIN cc.tarballs})
      fr == TLCEval(Odds(p.failrun))
      F == TLCEval(IF ~fr \/ D = {} THEN {} ELSE Sub(D, p.fail) \cup {Pick(D)})
      cz == TLCEval(Sub(D, p.cached))
      Dly == IF p.slow > 0 THEN {p.slow, p.slow + 15} ELSE {0, 0, 3, 8, 20, 45}
  IN TLCEval([q \in D |->
        LET inst == TLCEval(q \in F /\ Odds(40)) IN
        [bd |-> IF Odds(p.delay) THEN Pick(Dly) ELSE 0, id |-> IF Odds(IF p.slow > 0 THEN p.delay ELSE p.delay \div 2) THEN Pick(Dly) ELSE 0,
         bf |-> IF q \in F /\ ~inst THEN Pick({1, 2, 139, 0 - 9, 0 - 15}) ELSE 0,
         if |-> IF q \in F /\ inst THEN Pick({1, 0 - 9}) ELSE 0,
         debris |-> q \in F /\ Odds(p.debris), nobin |-> q \in F /\ Odds(p.nobin), cached |-> q \in cz]])

\* ---------------------------------------------------------------- behaviour
Init == stage = 0 /\ w = <<>> /\ c = <<>> /\ lib = <<>> /\ pol = <<>>

GenWorld == stage = 0 /\ stage' = 1 /\ w' = RandWorld(Profile) /\ UNCHANGED <<c, lib, pol>>
GenCfg   == stage = 1 /\ stage' = 2 /\ c' = RandCfg(Profile, w) /\ UNCHANGED <<w, lib, pol>>
GenLib   == stage = 2 /\ stage' = 3 /\ lib' = RandLib(Profile, w, c) /\ UNCHANGED <<w, c, pol>>
GenPol   == stage = 3 /\ stage' = 4 /\ pol' = RandPol(Profile, w, c) /\ UNCHANGED <<w, c, lib>>
Emit     == stage = 4 /\ stage' = 5 /\ UNCHANGED <<w, c, lib, pol>>
            /\ PrintT("SCN " \o ToJson([world |-> w, cfg |-> c, lib |-> lib, pol |-> pol]))
Next == GenWorld \/ GenCfg \/ GenLib \/ GenPol \/ Emit
=============================================================================
