-------------------------------- MODULE Env --------------------------------
(***************************************************************************)
(* The environment a build receives, as a function of the caller's          *)
(* environment, the variables customized for its package, the directory of  *)
(* the configured R and the target library.                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

LOCAL R(s) == {s[i] : i \in DOMAIN s}

\* sequences of [n, v] as functions; the last entry of a name counts
EnvFn(s) == [n \in {s[i].n : i \in DOMAIN s} |-> s[CHOOSE i \in DOMAIN s : s[i].n = n /\ \A j \in DOMAIN s : s[j].n = n => j <= i].v]

Censored == {"GITHUB_TOKEN", "GITHUB_PAT", "GHE_TOKEN", "GHE_PAT", "AWS_ACCESS_KEY_ID", "AWS_SECRET_KEY"}
Overridden == {"R_LIBS_USER", "R_LIBS_SITE"}

\* up: name in capitals, for the variables that have a meaning
CarriedOver(inh, cust, up) == {n \in DOMAIN inh : inh[n] # "" /\ n \notin Overridden \cup {"PATH"} /\ n \notin DOMAIN cust /\ up[n] \notin Censored}
Withheld(inh, cust, up) == {n \in DOMAIN inh : up[n] \in Censored /\ n \notin DOMAIN cust}

\* got: the environment; user: state of the directory R_LIBS_USER names; build: a build in a scratch library
EnvOK(got, user, inh, cust, up, rdir, lib, build, path) ==
  /\ \A n \in CarriedOver(inh, cust, up) : n \in DOMAIN got /\ got[n] = inh[n]
  /\ \A n \in DOMAIN cust : n \in Overridden \/ (n \in DOMAIN got /\ got[n] = cust[n])
  \* nothing that belongs to another package, nothing invented
  /\ DOMAIN got \subseteq CarriedOver(inh, cust, up) \cup DOMAIN cust \cup Withheld(inh, cust, up) \cup Overridden \cup {"PATH"}
  /\ \A n \in Withheld(inh, cust, up) : n \in DOMAIN got /\ inh[n] # "" => got[n] # inh[n]
  \* the library paths
  /\ "R_LIBS_USER" \in DOMAIN got /\ user = "empty" /\ ("R_LIBS_USER" \in DOMAIN inh => got["R_LIBS_USER"] # inh["R_LIBS_USER"])
  /\ IF build THEN "R_LIBS_SITE" \in DOMAIN got /\ got["R_LIBS_SITE"] = lib
     ELSE "R_LIBS_SITE" \in DOMAIN got => got["R_LIBS_SITE"] = lib
  \* the search path for programs: path is the caller's, already led by rdir or not
  /\ "PATH" \in DOMAIN got /\ got["PATH"] = (IF path.led THEN path.v ELSE rdir \o ":" \o path.v)
=============================================================================
