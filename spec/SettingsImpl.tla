---------------------------- MODULE SettingsImpl ----------------------------
(***************************************************************************)
(* How pkgr gets from what is written to where things are: the steps of a    *)
(* start (find the file, expand variables, decode, resolve R, ask R where     *)
(* the library is, expand ~, go to the directory of the configuration), and   *)
(* the uses, which happen from different directories.  That every use leads   *)
(* where Settings says.                                                       *)
(* A text is [lead, tail]: what it begins with ("", "~", "far", "up": an      *)
(* absolute place, "../", "$V", "${V}").                                      *)
(***************************************************************************)
EXTENDS Settings, TLC
CONSTANTS RFixed,      \* R is resolved before it is first used, and against the configuration's directory
          HomeBefore   \* the path of the configuration is expanded before it is simplified
VARIABLES pc, s, cwd, file, raw, val, uses
vars == <<pc, s, cwd, file, raw, val, uses>>

P(f, t) == [form |-> f, tail |-> t]
PForms == {"rel", "dot", "up", "abs", "tilde", "var", "glue"}
VSet(f) == IF f = "var" THEN {"far", "tilde", "rel"} ELSE IF f = "glue" THEN {"rel", "empty"} ELSE {"empty"}
Paths(t) == {P(f, t) : f \in PForms}
Vals == {"far", "tilde", "rel", "empty"}
Fits(p, v) == Given(p) => v \in VSet(p.form) \/ p.form \notin {"var", "glue"}
Base(v, cw, how, lock, fl, el, ml, er, mr, lg) ==
  [v |-> v, cwd |-> cw, how |-> how, lock |-> IF lock = "fails" THEN "renv" ELSE lock, renvsays |-> IF lock = "fails" THEN "fails" ELSE "plain", broken |-> "", cmd |-> "install", name |-> "pkgr.yml", platform |-> "plat", rver |-> "4.1.2",
   renv |-> P("abs", "renv"), libthere |-> FALSE,
   flag |-> [lib |-> fl, noupdate |-> "", strict |-> ""], env |-> [lib |-> el, r |-> er],
   file |-> [lib |-> ml, r |-> mr, cache |-> None, logall |-> lg, loginst |-> None, overwrite |-> FALSE, tar |-> None, tar2 |-> None, repo2 |-> None, desc |-> None, repo |-> None, noupdate |-> "", strict |-> ""]]
Cases ==
  {Base(v, cw, how, lock, fl, el, ml, er, mr, lg) :
     v \in Vals, cw \in {"conf", "home"}, how \in {"rel", "tildeup"}, lock \in {"", "packrat", "renv", "fails"},
     fl \in {None, P("tilde", "l1")}, el \in {None, P("dot", "l2")}, ml \in {None} \cup Paths("l"),
     er \in {None, P("up", "e/R")}, mr \in {None, P("name", "R")} \cup Paths("r/R"), lg \in {None, P("var", "log")}}
Sound == {x \in Cases : Fits(x.file.lib, x.v) /\ Fits(x.file.r, x.v) /\ Fits(x.file.logall, x.v)}
Unsound == {[x EXCEPT !.broken = b] : x \in {y \in Sound : y.v = "empty" /\ y.cwd = "conf" /\ y.env.lib = None /\ y.file.logall = None}, b \in {"conf", "confbad", "desc", "r"}}
Init == /\ s \in Sound \cup Unsound
        /\ pc = "find" /\ cwd = s.cwd /\ file = "none" /\ raw = <<>> /\ val = <<>> /\ uses = <<>>

\* ---- texts: lead is what a text begins with, rest follows
Text(p) ==
  CASE p.form \in {"rel", "dot", "name"} -> [lead |-> "", tail |-> p.tail, bare |-> p.form = "name"]
    [] p.form = "up" -> [lead |-> "..", tail |-> p.tail, bare |-> FALSE]
    [] p.form = "abs" -> [lead |-> "far", tail |-> p.tail, bare |-> FALSE]
    [] p.form = "tilde" -> [lead |-> "~", tail |-> p.tail, bare |-> FALSE]
    [] p.form = "var" -> [lead |-> "$/", tail |-> p.tail, bare |-> FALSE]
    [] p.form = "glue" -> [lead |-> "$", tail |-> p.tail, bare |-> FALSE]
    [] OTHER -> [lead |-> "none", tail |-> "", bare |-> FALSE]
Expand(t, v) ==
  CASE t.lead = "$/" -> IF v = "far" THEN [t EXCEPT !.lead = "far"] ELSE IF v = "tilde" THEN [t EXCEPT !.lead = "~"] ELSE [t EXCEPT !.lead = "", !.tail = "sub/" \o @]
    [] t.lead = "$" -> [t EXCEPT !.lead = "", !.tail = (IF v = "rel" THEN "sub" ELSE "") \o @]
    [] OTHER -> t
Tilde(t) == IF t.lead = "~" THEN [t EXCEPT !.lead = "home"] ELSE t
\* what a program in directory d makes of a text
Parent(d) == IF d = "conf" THEN "parent" ELSE "above " \o d
Open(t, d) ==
  CASE t.lead = "" -> At(d, t.tail)
    [] t.lead = ".." -> At(Parent(d), t.tail)
    [] t.lead = "~" -> At(d, "~/" \o t.tail)
    [] OTHER -> At(t.lead, t.tail)
Start(t, d) == IF t.bare THEN At("bin", t.tail) ELSE Open(t, d)
AbsTo(t, d) == IF t.bare \/ t.lead \notin {"", ".."} THEN t ELSE [lead |-> Open(t, d).base, tail |-> t.tail, bare |-> FALSE]

Find ==
  /\ pc = "find" /\ pc' = IF s.broken = "conf" THEN "failed" ELSE "expand"
  \* simplified first, "~/../x" is "x"
  /\ file' = IF s.how = "tildeup" /\ ~HomeBefore THEN "lost" ELSE "conf"
  /\ UNCHANGED <<s, cwd, raw, val, uses>>
ExpandVars ==
  /\ pc = "expand" /\ pc' = IF s.broken = "confbad" THEN "failed" ELSE "decode"
  /\ raw' = [lib |-> Expand(Text(s.file.lib), s.v), r |-> Expand(Text(s.file.r), s.v), log |-> Expand(Text(s.file.logall), s.v)]
  /\ UNCHANGED <<s, cwd, file, val, uses>>
Decode ==
  /\ pc = "decode" /\ pc' = "resolve"
  /\ val' = [lib |-> IF Given(s.flag.lib) THEN Text(s.flag.lib) ELSE IF Given(s.env.lib) THEN Text(s.env.lib) ELSE raw.lib,
             r |-> IF Given(s.env.r) THEN Text(s.env.r) ELSE IF Given(s.file.r) THEN raw.r ELSE Text(P("name", "R")),
             log |-> raw.log]
  /\ UNCHANGED <<s, cwd, file, raw, uses>>
Use(what, loc) == uses' = Append(uses, <<what, loc>>)
ResolveR ==
  /\ pc = "resolve" /\ pc' = "ask"
  /\ val' = IF RFixed THEN [val EXCEPT !.r = AbsTo(Tilde(@), "conf")] ELSE val
  /\ UNCHANGED <<s, cwd, file, raw, uses>>
Ask ==
  /\ pc = "ask" /\ pc' = IF val.lib.lead = "none" /\ s.broken = "r" THEN "failed" ELSE "tilde"
  /\ IF val.lib.lead # "none" \/ s.broken = "r" THEN UNCHANGED <<val, uses>>
     ELSE /\ Use("R", Start(val.r, cwd))
          /\ val' = [val EXCEPT !.lib = CASE s.lock = "packrat" -> [lead |-> "", tail |-> "packrat/lib/plat/4.1.2", bare |-> FALSE]
                                          [] s.lock = "renv" /\ s.renvsays \in Answers -> Text(s.renv) [] OTHER -> @]
  /\ UNCHANGED <<s, cwd, file, raw>>
TildeStep ==
  /\ pc = "tilde" /\ pc' = IF val.lib.lead = "none" THEN "failed" ELSE "chdir"
  /\ val' = [lib |-> Tilde(val.lib), r |-> Tilde(val.r), log |-> Tilde(val.log)]
  /\ UNCHANGED <<s, cwd, file, raw, uses>>
Chdir == pc = "chdir" /\ pc' = "log" /\ cwd' = file /\ UNCHANGED <<s, file, raw, val, uses>>
Logging == pc = "log" /\ pc' = "plan" /\ (IF val.log.lead = "none" THEN UNCHANGED uses ELSE Use("log", Open(val.log, cwd))) /\ UNCHANGED <<s, cwd, file, raw, val>>
\* making the plan takes R's version and reads the configured files
Plan == pc = "plan" /\ pc' = (IF s.broken \in {"r", "desc"} THEN "failed" ELSE "build") /\ UNCHANGED <<s, cwd, file, raw, val, uses>>
\* a build runs in a directory of its own; its library is made absolute before
Build == pc = "build" /\ pc' = "install" /\ Use("R", Start(val.r, "scratch")) /\ UNCHANGED <<s, cwd, file, raw, val>>
Install == pc = "install" /\ pc' = "done" /\ Use("lib", Open(val.lib, cwd)) /\ UNCHANGED <<s, cwd, file, raw, val>>
Next == Find \/ ExpandVars \/ Decode \/ ResolveR \/ Ask \/ TildeStep \/ Chdir \/ Logging \/ Plan \/ Build \/ Install
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Found == pc # "find" => file = "conf"
RightR == \A k \in DOMAIN uses : uses[k][1] = "R" => uses[k][2] = ROf(s)
RightLib == \A k \in DOMAIN uses : uses[k][1] = "lib" => uses[k][2] = LibOf(s)
RightLog == \A k \in DOMAIN uses : uses[k][1] = "log" => {uses[k][2]} = LogOf(s, "plan")
NoLib == /\ pc \notin {"find", "expand", "decode", "resolve", "ask", "tilde", "failed"} => HasLib(s)
         /\ pc = "done" => ~Fails(s)
         /\ pc = "failed" => Fails(s) \/ ~HasLib(s)
\* what fails does so before the library is touched
Early == Fails(s) \/ ~HasLib(s) => \A k \in DOMAIN uses : uses[k][1] # "lib"
Ends == <>(pc \in {"done", "failed"})
=============================================================================
