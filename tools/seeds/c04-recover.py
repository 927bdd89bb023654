PROP = "C04"
NEEDS = "a library in which an interrupted run left a backup directory, and the plan command"
BREAKS = "planning settles the backups of an interrupted run and so changes the library"
EDITS = [("cmd/plan.go", """		installedPackages = pacman.GetPriorInstalledPackages(fs, cfg.Library)
""", """		installedPackages = installedPackagesOf(cfg.Library)
"""), ("cmd/plan.go", """func removeBasePackages(pkgList []string) []string {
""", """func installedPackagesOf(library string) map[string]desc.Desc {
	// a package that is only there as the backup of an interrupted run is installed
	if err := rollback.RecoverBackups(fs, library); err != nil {
		log.WithField("error", err).Warn("could not recover backups")
	}
	return pacman.GetPriorInstalledPackages(fs, library)
}

func removeBasePackages(pkgList []string) []string {
""")]
# --- demo ---
w = World()
r = w.repo("R1", [("a", "2.0", {}), ("b", "1.0", {})])
w.put("b", "1.0")
w.put("a", "1.0")
(w.lib / "a").rename(w.lib / "__OLD__a")
w.config(f"Threads: 1\nPackages:\n  - a\n  - b\nRepos:\n  - R1: {r}\n")
w.run("plan")
expect(w.rc == 0, "plan fails")
expect(sorted(os.listdir(w.lib)) == ["__OLD__a", "b"], "plan changed the library: %s" % os.listdir(w.lib))
