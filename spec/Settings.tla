------------------------------ MODULE Settings ------------------------------
(***************************************************************************)
(* What the paths and switches of a configuration come to, wherever pkgr is  *)
(* called from and however it is told where the configuration lies.          *)
(* A path is written [form, tail]; where it leads is [base, tail]:            *)
(*   conf the directory of the configuration file, parent the one above,      *)
(*   home, far (an absolute place), bin (the directory searched for commands) *)
(*   form  "rel"   tail            "dot"  ./tail         "up"    ../tail      *)
(*         "abs"   <far>/tail      "tilde" ~/tail        "name"  a command    *)
(*         "var"   $V/tail         "brace" ${V}/tail     "glue"  ${V}tail     *)
(*         "none"  not given                                                  *)
(*   V, a variable of the environment, holds ("vals"): <far>, "~", a relative *)
(*   directory, or is empty or unset                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

None == [form |-> "none", tail |-> ""]
Given(p) == p.form # "none"
At(b, t) == [base |-> b, tail |-> t]
\* v: what the variable holds
Leads(p, v) ==
  LET from(b) == At(b, p.tail) IN
  CASE p.form \in {"rel", "dot"} -> from("conf")
    [] p.form = "up" -> from("parent")
    [] p.form = "abs" -> from("far")
    [] p.form = "tilde" -> from("home")
    [] p.form = "name" -> from("bin")
    [] p.form \in {"var", "brace"} -> IF v = "far" THEN from("far") ELSE IF v = "tilde" THEN from("home") ELSE At("conf", "sub/" \o p.tail)
    [] p.form = "glue" -> IF v = "rel" THEN At("conf", "sub" \o p.tail) ELSE from("conf")

\* s: the settings [file, flag, env, lock, renv, v, ...]: a flag goes before the environment, the
\* environment before the file, a library before a lock file
First(a, b) == IF Given(a) THEN a ELSE b
LibGiven(s) == First(s.flag.lib, First(s.env.lib, s.file.lib))
\* renv is only asked if no library is given; it has to answer and to succeed
Answers == {"plain", "noisy"}
HasLib(s) == Given(LibGiven(s)) \/ s.lock = "packrat" \/ (s.lock = "renv" /\ s.renvsays \in Answers)
\* what is wrong with the surroundings: a file is not there or is not what it should be
Broken == {"", "conf", "confbad", "desc", "descbad", "tar", "tarbad", "repo", "r"}
Plans(cmd) == cmd \in {"install", "plan", "load", "inspect"}
Fails(s) ==
  CASE s.broken = "" -> FALSE
    [] s.broken \in {"conf", "confbad"} -> TRUE
    \* R tells its version, on which the place of the library may depend
    [] s.broken = "r" -> ~Given(LibGiven(s)) \/ Plans(s.cmd) \/ s.cmd = "run"
    [] OTHER -> Plans(s.cmd)
LibOf(s) ==
  IF Given(LibGiven(s)) THEN Leads(LibGiven(s), s.v)
  ELSE IF s.lock = "packrat" THEN At("conf", "packrat/lib/" \o s.platform \o "/" \o s.rver)
  ELSE Leads(s.renv, s.v)
RGiven(s) == First(s.env.r, s.file.r)
ROf(s) == IF Given(RGiven(s)) THEN Leads(RGiven(s), s.v) ELSE At("bin", "R")
CacheOf(s) == IF Given(s.file.cache) THEN Leads(s.file.cache, s.v) ELSE At("xdg", "pkgr")
\* a command's log file: install has its own, which takes the place of the general one
LogOf(s, cmd) ==
  IF cmd = "install" /\ Given(s.file.loginst) THEN {Leads(s.file.loginst, s.v)}
  ELSE IF Given(s.file.logall) THEN {Leads(s.file.logall, s.v)} ELSE {}
\* a switch: what the command line says, else what the file says
Switch(flag, file) == IF flag # "" THEN flag = "on" ELSE file = "on"
NoUpdate(s) == Switch(s.flag.noupdate, s.file.noupdate)
Strict(s) == Switch(s.flag.strict, s.file.strict)

\* ---- what a run shows
\* o: [outcome, rs, libs, lib0, pkgs, updated, touched, kept]
\*   rs      the R programs that ran           libs   the libraries R was given to install into
\*   pkgs    what the library then holds       updated  the outdated package has been replaced
\*   touched what the run created or changed   kept   what was in the log files is still there
Wanted(s) == {"pa", "dp", "tb"} \cup (IF Given(s.file.tar2) THEN {"tc"} ELSE {}) \cup (IF Given(s.file.repo2) THEN {"pb"} ELSE {})
RunsR(cmd) == cmd \in {"install", "plan", "load", "run"}
Installs(s, cmd) == cmd = "install" /\ HasLib(s) /\ ~Fails(s) /\ (s.libthere \/ ~Strict(s))
Databases == At("xdg", "db")
MayTouch(s, cmd) ==
  LogOf(s, cmd) \cup {Databases}
  \cup (IF Installs(s, cmd) THEN {LibOf(s), CacheOf(s)} ELSE {})
  \* making a plan unpacks tarballs
  \cup (IF cmd \in {"install", "plan", "load", "inspect", "cleancache"} THEN {CacheOf(s)} ELSE {})
  \cup (IF cmd = "add" THEN {At("conf", s.name)} ELSE {})
MustTouch(s, cmd) ==
  LogOf(s, cmd)
  \cup (IF Installs(s, cmd) THEN {LibOf(s), CacheOf(s)} ELSE {})
  \cup (IF cmd = "add" THEN {At("conf", s.name)} ELSE {})
SettingsOK(s, o) ==
  LET cmd == s.cmd IN
  IF ~HasLib(s) \/ s.broken \in {"conf", "confbad"} THEN o.outcome = "err" /\ o.touched = {} /\ o.libs = {}
  ELSE IF Fails(s) THEN
  /\ o.outcome = "err" /\ o.libs = {} /\ o.rs \subseteq {ROf(s)} /\ ~o.updated
  /\ o.touched \subseteq LogOf(s, cmd) \cup {Databases, CacheOf(s)}
  /\ o.kept \/ s.file.overwrite
  ELSE
  /\ o.outcome = (IF cmd = "install" /\ ~Installs(s, cmd) THEN "err" ELSE "ok")
  /\ o.rs \subseteq {ROf(s)}
  /\ RunsR(cmd) => o.rs = {ROf(s)}
  /\ o.libs = IF Installs(s, cmd) \/ cmd = "run" THEN {LibOf(s)} ELSE {}
  /\ Installs(s, cmd) => /\ o.pkgs = Wanted(s)
                         /\ s.libthere => o.updated = ~NoUpdate(s)
  /\ ~Installs(s, cmd) /\ s.libthere => ~o.updated
  /\ o.touched \subseteq MayTouch(s, cmd)
  /\ MustTouch(s, cmd) \subseteq o.touched
  \* the log files are written to, and emptied before only when that is asked for
  /\ o.kept = ~s.file.overwrite \/ LogOf(s, cmd) = {}
=============================================================================
