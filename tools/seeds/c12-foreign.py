PROP = "C12"
NEEDS = "an outdated package that something other than pkgr installed"
BREAKS = "it is announced for an update but stays as it is"
EDITS = [("rollback/types.go", """		if funk.Contains(rp.AllPackages, op.Package) {
""", """		if funk.Contains(rp.AllPackages, op.Package) && rp.PreinstalledPackages[op.Package].PkgrVersion != "" {
""")]
# --- demo ---
w = World()
r = w.repo("R1", [("a", "2.0", {})])
w.put("a", "1.0")
w.config(f"Threads: 1\nPackages:\n  - a\nRepos:\n  - R1: {r}\n")
w.run("install")
expect(w.versions() == {"a": "2.0"}, "installed: %s" % w.versions())
