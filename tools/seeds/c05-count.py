PROP = "C05"
NEEDS = "a tarball whose package is in the library already"
BREAKS = "the announced number of packages to install leaves out tarballs that are in the library already, which the install does install"
EDITS = [("gpsr/dependencies.go", """		if funk.Contains(requiredPackages, p) && !isAdditionalPkgInstallation {
""", """		if funk.Contains(requiredPackages, p) && (!isAdditionalPkgInstallation || !ip.CreateLibrary) {
""")]
# --- demo ---
w = World()
r = w.repo("R1", [("a", "1.0", {}), ("b", "1.0", {})])
(w.proj / "tb.tar.gz").write_bytes(tgz("tb", "2.0"))
w.put("tb", "1.0")
w.put("b", "1.0")
w.config(f"Threads: 1\nPackages:\n  - a\n  - b\nTarballs:\n  - tb.tar.gz\nRepos:\n  - R1: {r}\n")
w.run("plan")
n = [l["to_install"] for l in w.log if l.get("msg") == "package installation plan"]
w.run("install")
done = set(w.ev("IE") + w.ev("TE"))
expect(n == [len(done)], "announced %s, installed %s" % (n, sorted(done)))
