PROP = "C19"
NEEDS = "a repository whose package types change (RepoType added) within the lifetime of its cached database"
BREAKS = "databases with and without binary packages share a file, so the packages of the other type are missing"
EDITS = [("cran/repodb.go", """	for st := range repoDb.DescriptionsBySourceType {
		stsum += st + 1
	}

""", """	if _, ok := repoDb.DescriptionsBySourceType[Source]; ok {
		stsum += Source + 1
	}

""")]
# --- demo ---
w = World()
osr = dict(l.split("=", 1) for l in open("/etc/os-release").read().splitlines() if "=" in l)
sub = "bin/linux/%s/%s/contrib/4.1" % (osr["ID"].strip('"'), osr["VERSION_CODENAME"].strip('"'))
r = w.repo("R1", [("a", "1.0", {})])
w.repo("R1", [("a", "2.0", dict(Built="R 4.1.2"))], sub=sub)
base = f"Threads: 1\nPackages:\n  - a\nRepos:\n  - R1: {r}\n"
w.config(base)
w.run("plan")
expect(w.rc == 0, "first plan fails")
w.config(base + "Customizations:\n  Repos:\n    - R1:\n        RepoType: MPN\n")
w.run("plan")
got = [l.get("version") for l in w.log if l.get("msg") == "package repository set" and l.get("pkg") == "a"]
expect(w.rc == 0 and got == ["2.0"], "the binary version is not planned: rc %s, %s" % (w.rc, got))
