PROP = "C04"
NEEDS = "strict mode, a library that does not exist, and a configuration whose packages all come from tarballs"
BREAKS = "the library is created and filled although strict mode forbids it"
EDITS = [("cmd/install.go", """		if cfg.Strict {
			log.WithFields""", """		if cfg.Strict && len(installPlan.PackageDownloads) > 0 {
			log.WithFields""")]
# --- demo ---
w = World()
r = w.repo("R1", [("a", "1.0", {})])
(w.proj / "tb.tar.gz").write_bytes(tgz("tb", "1.0"))
w.config(f"Threads: 1\nPackages: []\nTarballs:\n  - tb.tar.gz\nRepos:\n  - R1: {r}\n")
w.run("install", "--strict")
expect(not w.lib.exists(), "strict mode created the library")
expect(w.rc != 0, "the run was not refused")
