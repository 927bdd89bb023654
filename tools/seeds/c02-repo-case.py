PROP = "C02"
NEEDS = "two repositories whose names differ in case only, and a package pinned to the later one"
BREAKS = "the package is taken from the earlier repository"
EDITS = [("cran/pkg_nexus.go", """		if pkgcfg.Repo.Name == r.Name {
""", """		if strings.EqualFold(pkgcfg.Repo.Name, r.Name) {
""")]
# --- demo ---
w = World()
r1 = w.repo("one", [("a", "1.0", {})])
r2 = w.repo("two", [("a", "2.0", {})])
w.config(f"Threads: 1\nPackages:\n  - a\nRepos:\n  - Local: {r1}\n  - local: {r2}\nCustomizations:\n  Packages:\n    - a:\n        Repo: local\n")
w.run("install")
expect(w.versions() == {"a": "2.0"}, "installed: %s" % w.versions())
