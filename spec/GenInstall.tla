---------------------------- MODULE GenInstall ----------------------------
EXTENDS Gen
\* C01: closure
ProfPlan == [Base0 EXCEPT !.n = 7, !.edge = 20, !.sug = 12, !.cyc = 1, !.repos = 2, !.rec = 1, !.ignore = 4, !.ignreq = 15, !.norec = 40,
   !.suggests = 35, !.custsug = 15, !.tarballs = 20, !.descs = 20, !.missing = 3, !.stdeps = 15, !.roots = 25, !.gone = 8, !.delay = 0]
\* C01: the same where packages come in either type
ProfPlanBin == [ProfPlan EXCEPT !.n = 5, !.mpn = 85, !.dtype = 85, !.custtype = 50, !.custrepo = 3, !.ignore = 20, !.edge = 40, !.twin = 60, !.rec = 0,
   !.gone = 0, !.missing = 0, !.roots = 60, !.repos = 2]
\* C02
ProfRepo == [Base0 EXCEPT !.ignore = 4, !.n = 5, !.edge = 15, !.repos = 3, !.mpn = 40, !.dtype = 40, !.custrepo = 20, !.custtype = 20, !.custsug = 5, !.delay = 0]
\* C03
ProfVer == [Base0 EXCEPT !.n = 6, !.edge = 8, !.repos = 2, !.req = 70, !.reqodd = 75, !.dup = 25, !.path = 4, !.inlib = 60, !.longver = 60, !.delay = 0, !.roots = 70]
\* C03: many requirements on R at once: a package that needs everything there is, of which the planner
\* leaves out what is not available
ProfElig == [ProfVer EXCEPT !.n = 12, !.edge = 0, !.gone = 0, !.stdeps = 0, !.req = 100, !.reqodd = 96, !.dup = 15, !.path = 1, !.inlib = 0, !.extra = 0, !.roots = 10,
   !.repos = 1, !.hub = 1, !.okroots = 100]
\* C03: many comparisons of versions at once
ProfCompare == [ProfVer EXCEPT !.n = 12, !.edge = 0, !.gone = 0, !.stdeps = 0, !.req = 0, !.dup = 0, !.path = 0, !.repos = 1, !.roots = 100, !.okroots = 100, !.inlib = 95, !.extra = 0,
   !.longver = 45]
\* engine
ProfEngine == [Base0 EXCEPT !.n = 7, !.edge = 28, !.sug = 4, !.suggests = 10, !.inlib = 12, !.roots = 45, !.delay = 80, !.cached = 12]
ProfFail == [ProfEngine EXCEPT !.failrun = 100, !.fail = 12, !.nobin = 15, !.debris = 20, !.inlib = 8]
\* few workers, many packages, one of the first ones fails
ProfNarrow == [ProfFail EXCEPT !.n = 9, !.edge = 16, !.fail = 5, !.roots = 60, !.maxth = 2, !.inlib = 6, !.cached = 30, !.repos = 1]
\* many independent slow packages, mostly without a thread count
ProfWide == [ProfEngine EXCEPT !.n = 12, !.edge = 3, !.roots = 90, !.noth = 60, !.slow = 25, !.delay = 100, !.repos = 1, !.gone = 0, !.inlib = 0, !.cached = 30, !.mpn = 40]
\* library
ProfLib == [Base0 EXCEPT !.nolib = 12, !.n = 6, !.edge = 18, !.inlib = 55, !.extra = 35, !.junk = 25, !.noupdate = 30, !.tarballs = 25, !.longver = 20, !.delay = 20,
   !.failrun = 30, !.fail = 10, !.norollback = 30, !.debris = 20, !.maxth = 3]
ProfRollback == [ProfLib EXCEPT !.failrun = 100, !.norollback = 15, !.noupdate = 15, !.tarballs = 35]
ProfUpdate == [ProfLib EXCEPT !.failrun = 0, !.inlib = 65]
ProfMixed == [ProfLib EXCEPT !.failrun = 25, !.rec = 1, !.repos = 3, !.mpn = 25, !.custrepo = 8, !.custtype = 8, !.suggests = 20, !.sug = 10,
   !.req = 20, !.missing = 1, !.strict = 6, !.descs = 15, !.ignore = 4, !.dtype = 30]
\* origins: packages from every kind of source, many of them built before
ProfMeta == [ProfMixed EXCEPT !.cached = 35, !.failrun = 10, !.mpn = 35, !.tarballs = 30, !.edge = 12]
\* environments: few packages, everything buildable
ProfEnv == [Base0 EXCEPT !.n = 5, !.edge = 20, !.inlib = 10, !.tarballs = 35, !.cached = 20, !.custtype = 5, !.mpn = 20, !.delay = 10, !.roots = 60, !.gone = 0]
\* tarballs, over repositories that offer the same packages
ProfTar == [Base0 EXCEPT !.n = 4, !.edge = 25, !.repos = 1, !.inlib = 25, !.extra = 30, !.junk = 15, !.noupdate = 20, !.norollback = 15, !.tarballs = 100,
   !.delay = 0, !.gone = 0, !.nolib = 30, !.roots = 30]
\* histories: no failing builds (those come from GenHist), libraries in every state, tarballs, binaries
ProfHist == [Base0 EXCEPT !.n = 5, !.edge = 20, !.nolib = 20, !.inlib = 45, !.extra = 30, !.junk = 20, !.noupdate = 20, !.norollback = 20, !.tarballs = 40,
   !.mpn = 25, !.delay = 15, !.maxth = 4, !.gone = 3, !.cached = 10, !.http = 40]
ProfUndo == [ProfHist EXCEPT !.http = 5, !.cached = 30, !.inlib = 55, !.norollback = 35]
ProfHttp == [ProfHist EXCEPT !.twin = 60, !.http = 100, !.inlib = 25, !.tarballs = 20, !.mpn = 40, !.repos = 3]
\* lives: few names, so that the runs get in each other's way
ProfLife == [ProfMixed EXCEPT !.n = 5, !.repos = 2, !.edge = 20, !.failrun = 35, !.fail = 15, !.missing = 0, !.gone = 2, !.req = 5, !.strict = 3, !.inlib = 40, !.tarballs = 30,
   !.norollback = 25, !.noupdate = 25, !.cached = 10, !.dup = 20, !.delay = 10, !.custrepo = 5, !.dtype = 25]
=============================================================================
