---------------------------- MODULE GenSettings ----------------------------
(***************************************************************************)
(* Configurations that write their paths in every form, and the ways to      *)
(* call pkgr with them.                                                       *)
(***************************************************************************)
EXTENDS Settings, TLC, Json
CONSTANT Profile
VARIABLES stage, s
Pick(S) == RandomElement(S)
Odds(p) == RandomElement(1..100) <= p
Forms(v) == {"rel", "dot", "up", "abs", "tilde"}
            \cup (IF v \in {"far", "tilde", "rel"} THEN {"var", "brace"} ELSE {})
            \cup (IF v \in {"rel", "empty", "unset"} THEN {"glue"} ELSE {})
Path(v, odds, tails) == IF ~Odds(odds) THEN None ELSE LET f == TLCEval(Pick(Forms(v))) IN TLCEval([form |-> f, tail |-> Pick(tails)])
Plain(odds, tails) == IF ~Odds(odds) THEN None ELSE TLCEval([form |-> Pick({"rel", "dot", "up", "abs", "tilde"}), tail |-> Pick(tails)])
Cmds == {"install", "install", "install", "plan", "load", "run", "inspect", "add", "clean"}
Gen(n) ==
  LET v == TLCEval(Pick({"far", "tilde", "rel", "empty", "unset"}))
      p(odds, tails) == TLCEval(Path(v, odds, tails))
      cmdk == TLCEval(Pick(1..12 + 0 * n))
      cwd == TLCEval(Pick({"conf", "conf", "parent", "far"}))
      lock == TLCEval(IF Odds(Profile.lock) THEN Pick({"packrat", "renv", "renv", "pkgr"}) ELSE "")
      nu == TLCEval(IF Odds(60) THEN Pick({"on", "off"}) ELSE "")
      st == TLCEval(IF Odds(30) THEN Pick({"on", "off"}) ELSE "")
      against(x, odds) == IF Odds(odds) THEN (IF x = "on" THEN "off" ELSE "on") ELSE IF Odds(20) THEN x ELSE ""
      how == TLCEval(Pick((IF cwd = "conf" THEN {"default"} ELSE {}) \cup {"rel", "abs", "tilde"}))
  IN TLCEval(
     [v |-> v, cwd |-> cwd, lock |-> lock,
      renvsays |-> IF Odds(60) THEN "plain" ELSE Pick({"noisy", "fails", "nothing", "unmarked"}),
      broken |-> IF Odds(Profile.sound) THEN "" ELSE Pick(Broken),
      cmd |-> CASE cmdk <= 6 -> "install" [] cmdk = 7 -> "plan" [] cmdk = 8 -> "load" [] cmdk = 9 -> "run" [] cmdk = 10 -> "inspect" [] cmdk = 11 -> "add" [] OTHER -> "cleancache",
      how |-> how, name |-> IF how = "default" THEN "pkgr.yml" ELSE Pick({"pkgr.yml", "other.yaml"}),
      platform |-> "x86_64-pc-linux-gnu", rver |-> "4.1.2",
      renv |-> [form |-> "abs", tail |-> "renv/lib1"],
      flag |-> [lib |-> Plain(25, {"lib2", "a/lib2"}), noupdate |-> against(nu, 50), strict |-> IF st = "on" THEN against(st, 50) ELSE against(st, 20)],
      env |-> [lib |-> Plain(20, {"lib3", "b/lib3"}), r |-> Plain(20, IF lock = "renv" THEN {"rtwo/R"} ELSE {"rtwo/R", "r3/R3"})],
      file |-> [lib |-> p(IF lock # "" THEN 35 ELSE 92, {"lib", "a/lib", "lib x"}), r |-> IF Odds(20) THEN [form |-> "name", tail |-> IF lock = "renv" THEN "R" ELSE Pick({"R", "R-devel"})] ELSE p(60, IF lock = "renv" THEN {"r/R", "r 5/R"} ELSE {"r/R", "r4/R4"}),
                cache |-> p(70, {"cache", "c/cache"}), logall |-> p(55, {"all.log", "logs/all.log"}), loginst |-> p(45, {"inst.log", "logs/inst.log"}), overwrite |-> Odds(40),
                tar2 |-> p(50, {"t2.tar.gz", "sub/t2.tar.gz"}), repo2 |-> p(50, {"repo2", "sub/repo2"}),
                tar |-> p(100, {"t.tar.gz", "sub/t.tar.gz"}), desc |-> p(100, {"DESCRIPTION", "sub/DESC"}), repo |-> p(100, {"repo", "sub/repo"}),
                noupdate |-> nu, strict |-> st],
      libthere |-> Odds(60)])
\* where everything leads, for the harness to lay out the scene
Scene(x) == [lib |-> IF HasLib(x) THEN LibOf(x) ELSE At("none", ""), r |-> ROf(x), cache |-> CacheOf(x),
             logs |-> {Leads(q, x.v) : q \in {y \in {x.file.logall, x.file.loginst} : Given(y)}},
             tar |-> Leads(x.file.tar, x.v), desc |-> Leads(x.file.desc, x.v), repo |-> Leads(x.file.repo, x.v),
             tar2 |-> IF Given(x.file.tar2) THEN Leads(x.file.tar2, x.v) ELSE At("none", ""), repo2 |-> IF Given(x.file.repo2) THEN Leads(x.file.repo2, x.v) ELSE At("none", "")]
Init == stage = 0 /\ s = <<>>
Next ==
  \/ stage = 0 /\ stage' = 1 /\ s' = Gen(stage)
  \/ stage = 1 /\ stage' = 2 /\ UNCHANGED s /\ PrintT("SCN " \o ToJson([s |-> s, scene |-> Scene(s)]))
ProfSettings == [lock |-> 30, sound |-> 100]
ProfBroken == [lock |-> 40, sound |-> 10]
=============================================================================
