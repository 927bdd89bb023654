------------------------------- MODULE Secure -------------------------------
(***************************************************************************)
(* Which servers pkgr talks to.  A repository is a front server and, if it    *)
(* redirects, a back server; what a server can show is its kind:              *)
(*   plain     no certificate asked for (http)     good     a valid one        *)
(*   wrong     for another name      expired, future      out of its time       *)
(*   self      signed by itself      stranger   by an authority nobody trusts    *)
(* A run: [cmd, flag, file, trusted (the authority of "good" is trusted),       *)
(* kinds: repository -> [front, back], forget (databases remembered are gone),  *)
(* empty (the package cache is gone)].                                          *)
(*   known, cached, lib   the repositories whose database is remembered, whose   *)
(*                        package is cached, whose package is installed          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES known, cached, lib
svars == <<known, cached, lib>>
NoSecure(q) == IF q.flag # "" THEN q.flag = "on" ELSE q.file = "on"
Accepts(q, kind) == kind = "plain" \/ NoSecure(q) \/ (kind = "good" /\ q.trusted)
Hops(q, i) == {"front"} \cup (IF q.kinds[i].back = "" THEN {} ELSE {"back"})
Kind(q, i, hop) == IF hop = "front" THEN q.kinds[i].front ELSE q.kinds[i].back
Reaches(q, i) == \A hop \in Hops(q, i) : Accepts(q, Kind(q, i, hop))
Repos(q) == DOMAIN q.kinds
Before(q) == [known |-> IF q.forget THEN {} ELSE known, cached |-> IF q.empty THEN {} ELSE cached]
All(q, S, what) == UNION {{[repo |-> i, hop |-> hop, what |-> what] : hop \in Hops(q, i)} : i \in S}
\* o: [outcome, reqs, lib, cached]
RunOK(q, o) ==
  LET b == Before(q)
      dbs == Repos(q) \ b.known
      badDb == {i \in dbs : ~Reaches(q, i)}
      pkgs == Repos(q) \ b.cached     \* installed or not
      badPkg == {i \in pkgs : ~Reaches(q, i)}
      bad == badDb # {} \/ (q.cmd = "install" /\ badPkg # {})
  IN \* whoever cannot show who it is is told nothing, and nothing of it is kept
     /\ \A x \in o.reqs : Accepts(q, Kind(q, x.repo, x.hop))
     /\ o.outcome = IF bad THEN "err" ELSE "ok"
     /\ o.reqs \subseteq All(q, dbs, "db") \cup (IF q.cmd = "install" /\ badDb = {} THEN All(q, pkgs, "pkg") ELSE {})
     /\ badDb = {} => All(q, dbs, "db") \subseteq o.reqs
     /\ ~bad /\ q.cmd = "install" => All(q, pkgs, "pkg") \subseteq o.reqs
     /\ o.lib = IF q.cmd = "install" /\ ~bad THEN Repos(q) ELSE lib
     /\ b.cached \subseteq o.cached
     /\ o.cached \subseteq b.cached \cup (IF q.cmd = "install" /\ badDb = {} THEN {i \in pkgs : Reaches(q, i)} ELSE {})
     /\ ~bad /\ q.cmd = "install" => pkgs \subseteq o.cached
\* a failed run may have remembered some of the databases it got: the next run is told to forget them
After(q, o) == /\ known' = IF o.outcome = "ok" THEN Repos(q) ELSE {}
               /\ cached' = o.cached /\ lib' = o.lib
=============================================================================
