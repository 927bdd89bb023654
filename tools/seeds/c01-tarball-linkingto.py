PROP = "C01"
NEEDS = "a configured tarball with a dependency that only its LinkingTo field names"
BREAKS = "the LinkingTo packages of tarballs are left out of the plan"
EDITS = [("desc/structs.go", """	for key, value := range d.LinkingTo {
		combined[key] = value
	}
	if suggests {
""", """	if suggests {
		for key, value := range d.LinkingTo {
			combined[key] = value
		}
""")]
# --- demo ---
w = World()
r = w.repo("R1", [("hdr", "1.0", {}), ("imp", "1.0", {})])
(w.proj / "tb.tar.gz").write_bytes(tgz("tb", "1.0", Imports="imp", LinkingTo="hdr"))
w.config(f"Threads: 1\nPackages: []\nTarballs:\n  - tb.tar.gz\nRepos:\n  - R1: {r}\n")
w.run("install")
expect(set(w.versions()) == {"tb", "hdr", "imp"}, "installed: %s" % w.versions())
