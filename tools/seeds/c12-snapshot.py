PROP = "C12"
NEEDS = "a package that an earlier pkgr run installed from the same address at which there is now a newer version"
BREAKS = "the package is not updated any more"
EDITS = [("pacman/utils.go", """			// If available version is later than currently installed version
			if desc.CompareVersionStrings(availableVersion, installedPkg.Version) > 0 {
""", """			// If available version is later than currently installed version; a snapshot has only one to offer
			sameSnapshot := installedPkg.PkgrVersion != "" && installedPkg.PkgrRepositoryURL == pkgDl.Config.Repo.URL
			if !sameSnapshot && desc.CompareVersionStrings(availableVersion, installedPkg.Version) > 0 {
""")]
# --- demo ---
w = World()
r = w.repo("R1", [("a", "1.0", {})])
w.policy()
w.config(f"Threads: 1\nPackages:\n  - a\nRepos:\n  - R1: {r}\n")
w.run("install")
expect(w.versions() == {"a": "1.0"}, "installed: %s" % w.versions())
w.repo("R1", [("a", "1.1", {})])
w.run("clean", "pkgdbs")
w.run("install")
expect(w.versions() == {"a": "1.1"}, "installed: %s" % w.versions())
