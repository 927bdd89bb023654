------------------------------- MODULE Cache -------------------------------
(***************************************************************************)
(* The package cache between runs, as it can be listed:                      *)
(*   entries [top, kind, mark, minor, dig]                                    *)
(*   top   the directory of the cache the entry lies in                       *)
(*   kind  "src" a source package of a repository, "built" a build of one,    *)
(*         "bin" a binary package of a repository, "tar" an unpacked tarball, *)
(*         "db" a package database, "other" anything else                      *)
(*   mark  the genuine content it holds, "?" when damaged                      *)
(*   minor the R version (major.minor) it was built by, "" if not built        *)
(*   dig   digest                                                              *)
(* and what installs may make of it and cleaning leaves of it.                 *)
(***************************************************************************)
EXTENDS Install

Minor(v) == ToString(v[1]) \o "." \o ToString(v[2])

\* what R is given to install into the library has been built by the R in use
BuiltByUs(k, bm) == k = "I" => bm = Minor(r.w.rver)

\* an install, given the cache before and after it: nothing incomplete is left behind, and what is
\* added are packages of this plan
Listed2(E) == {[top |-> x.top, kind |-> x.kind, mark |-> x.mark, minor |-> x.minor, dig |-> x.dig] : x \in Range(E)}
Sound(e) ==
  e.kind \in {"src", "built", "bin"} =>
    /\ e.mark # "?"
    /\ (e.kind = "src") = (e.minor = "")
AddedOK(before, after) ==
  /\ \A e \in after : Sound(e)
  /\ \A e \in after \ before :
       /\ e.kind \in {"src", "built", "bin"} => \E p \in r.plan.plan : e.mark = Marker(r.plan.sel[p])
       /\ e.kind \in {"built", "bin"} => e.minor = Minor(r.w.rver)
       /\ e.kind = "tar" => \E i \in DOMAIN r.c.tarballs : e.mark = TarMarker(r.c.tarballs[i])

\* what earlier runs have made of which repository's packages, as far as it still lies in the cache:
\* entries that also have the name, address and suffix of the repository
RepoOf(p) == r.w.repos[CHOOSE k \in DOMAIN r.w.repos : r.w.repos[k].name = r.plan.sel[p].repo]
Tagged(x, p) == [top |-> x.top, kind |-> x.kind, mark |-> x.mark, minor |-> x.minor, name |-> RepoOf(p).name, url |-> RepoOf(p).url, suffix |-> RepoOf(p).suffix]
Untagged(m, E) == \E x \in E : x.top = m.top /\ x.kind = m.kind /\ x.mark = m.mark /\ x.minor = m.minor
MadeBy(before, after, made) ==
  {m \in made : Untagged(m, after)}
  \cup UNION {{Tagged(x, p) : p \in {q \in r.plan.plan : x.mark = Marker(r.plan.sel[q])}} : x \in {y \in after \ before : y.kind \in {"src", "built", "bin"}}}
Held(made, p, kind) ==
  \E m \in made : /\ m.kind = kind /\ m.mark = Marker(r.plan.sel[p])
                  /\ (kind = "src" \/ m.minor = Minor(r.w.rver))
                  /\ m.name = RepoOf(p).name /\ m.url = RepoOf(p).url /\ m.suffix = RepoOf(p).suffix
Fetched(p) == IF r.plan.sel[p].type = "source" THEN "src" ELSE "bin"
\* C30: a build of what has been built, a transfer of what is there
Rebuild(made, k, p) == k = "B" /\ p \in r.plan.plan /\ Held(made, p, "built")
\* gets: the transfers of packages, [url, kind, p, ver]
TransfersOK(made, gets) ==
  /\ \A j \in DOMAIN gets : \E p \in r.plan.plan : /\ gets[j].mark = Marker(r.plan.sel[p])
                                                  /\ ~Held(made, p, Fetched(p))
  /\ \A j, k \in DOMAIN gets : gets[j] = gets[k] => j = k
\* what was fetched and built is there for the next run
KeptOK(after) ==
  r.active =>
    /\ \A p \in r.plan.plan : \E x \in after : x.kind = Fetched(p) /\ x.mark = Marker(r.plan.sel[p])
    /\ \A p \in built \cap inst : \E x \in after : x.kind = "built" /\ x.mark = Marker(r.plan.sel[p]) /\ x.minor = Minor(r.w.rver)

\* o: the options of a cleaning: what ("all", "cache", "none"), src, bin, repos (a sequence; all: every one)
Selected(o, tars, e) ==
  LET both == ~o.src /\ ~o.bin
      here == o.allrepos \/ e.top \in Range(o.repos)
  IN CASE o.what = "none" \/ (o.src /\ o.bin) -> FALSE
       [] e.kind = "src" -> here /\ (both \/ o.src)
       [] e.kind \in {"built", "bin"} -> here /\ (both \/ o.bin)
       [] e.kind = "tar" -> e.mark \in tars
       [] OTHER -> FALSE
\* databases are of no concern to the cleaning of the cache; cleaning everything may remove them
CleanedOK(o, tars, before, after) ==
  LET nodb(S) == {e \in S : e.kind # "db"} IN
  /\ nodb(after) = {e \in nodb(before) : ~Selected(o, tars, e)}
  /\ after \subseteq before
  /\ o.what # "all" => before \ nodb(before) \subseteq after
=============================================================================
