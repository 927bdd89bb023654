PROP = "C05"
NEEDS = "a configured tarball whose package is in the library already"
BREAKS = "the plan announces fewer packages than the run installs"
EDITS = [("gpsr/dependencies.go", """		if funk.Contains(requiredPackages, p) && !isAdditionalPkgInstallation {
""", """		_, isPlannedDep := ip.DepDb[p]
		if funk.Contains(requiredPackages, p) && (!isAdditionalPkgInstallation || !isPlannedDep) {
""")]
# --- demo ---
w = World()
r = w.repo("R1", [("a", "1.0", {})])
(w.proj / "tb.tar.gz").write_bytes(tgz("tb", "2.0", Imports="a"))
w.put("tb", "1.0")
w.config(f"Threads: 1\nPackages:\n  - a\nTarballs:\n  - tb.tar.gz\nRepos:\n  - R1: {r}\n")
w.run("plan")
n = [l["to_install"] for l in w.log if "to_install" in l]
expect(n == [2], "announced: %s" % n)
w.run("install")
expect(w.versions() == {"a": "1.0", "tb": "2.0"}, "installed: %s" % w.versions())
