PROP = "C01"
NEEDS = "an ignored package that a customization asks for as a binary from a repository that offers both types but is installed from source by default"
BREAKS = "the ignored package stays available, so it comes into the plan again as a dependency"
EDITS = [("cmd/plan.go", """			delete(db.DescriptionsBySourceType[cran.Binary], pkg)
			delete(db.DescriptionsBySourceType[cran.Source], pkg)
""", """			delete(db.DescriptionsBySourceType[db.DefaultSourceType], pkg)
			if db.DefaultSourceType != cran.Source {
				delete(db.DescriptionsBySourceType[cran.Source], pkg)
			}
""")]
# --- demo ---
w = World()
osr = dict(l.split("=", 1) for l in open("/etc/os-release").read().splitlines() if "=" in l)
sub = "bin/linux/%s/%s/contrib/4.1" % (osr["ID"].strip('"'), osr["VERSION_CODENAME"].strip('"'))
recs = [("a", "1.0", dict(Imports="skip")), ("skip", "1.0", {})]
r = w.repo("R1", recs)
w.repo("R1", recs, sub=sub, suffix="tar.gz")
for p, v, k in recs:
    os.rename(w.root / "repos/R1" / sub / f"{p}_{v}.tar.gz", w.root / "repos/R1" / sub / f"{p}_{v}_R_x86_64-pc-linux-gnu.tar.gz")
w.config(f"Threads: 1\nPackages:\n  - a\nIgnorePackages:\n  - skip\nRepos:\n  - R1: {r}\n"
         "Customizations:\n  Repos:\n    - R1:\n        RepoType: MPN\n        Type: source\n  Packages:\n    - skip:\n        Type: binary\n")
w.run("install")
expect(set(w.versions()) == {"a"}, "installed: %s" % w.versions())
