PROP = "C02"
NEEDS = "a package customized in both its repository and its type"
BREAKS = "customizing the type forgets the customized repository"
EDITS = [("cran/pkg_nexus.go", """	cfg := pkgNexus.Config.Packages[pkg]
	err := setType(&cfg, t)
""", """	cfg := PkgConfig{}
	err := setType(&cfg, t)
""")]
# --- demo ---
w = World()
r1 = w.repo("R1", [("a", "1.0", {})])
r2 = w.repo("R2", [("a", "2.0", {})])
base = f"Threads: 1\nPackages:\n  - a\nRepos:\n  - R1: {r1}\n  - R2: {r2}\nCustomizations:\n  Packages:\n    - a:\n        Repo: R2\n"
for extra in ("", "        Type: source\n"):
    w.config(base + extra)
    w.run("plan")
    got = [l.get("repo") for l in w.log if l.get("msg") == "package repository set" and l.get("pkg") == "a"]
    expect(got == ["R2"], "a is taken from %s" % got)
