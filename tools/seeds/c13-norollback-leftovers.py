PROP = "C13"
NEEDS = "rollback disabled and a run that updates a package or overwrites one from a tarball"
BREAKS = "the backup directories stay in the library"
EDITS = [("cmd/install.go", """	if !cfg.NoRollback {
		// If anything went wrong""", """	if cfg.NoRollback {
		// nothing is put back, so what was there has to stay
		rolledBack = err == nil && errInstallAdditional == nil
	} else {
		// If anything went wrong""")]
# --- demo ---
w = World()
w.policy({"bad": {"bf": 1}})
r = w.repo("R1", [("upd", "2.0", {}), ("bad", "1.0", {})])
w.put("upd", "1.0")
w.put("other", "1.0")
w.config(f"Threads: 1\nNoRollback: true\nPackages:\n  - upd\n  - bad\nRepos:\n  - R1: {r}\n")
w.run("install")
left = [d for d in os.listdir(w.lib) if d not in ("upd", "other")]
expect(not left, "left in the library: %s" % left)
expect("other" in w.versions(), "other is gone")
