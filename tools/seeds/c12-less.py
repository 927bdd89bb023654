PROP = "C12"
NEEDS = "an installed package whose version is newer in a leading component and lower in a later one than the repository's (2.0 against 1.5)"
BREAKS = "the package is replaced by the older version of the repository"
EDITS = [("pacman/utils.go", """			if desc.CompareVersionStrings(availableVersion, installedPkg.Version) > 0 {
""", """			versions := desc.Versions{desc.ParseVersion(installedPkg.Version), desc.ParseVersion(availableVersion)}
			if desc.CompareVersionStrings(availableVersion, installedPkg.Version) > 0 || versions.Less(0, 1) {
""")]
# --- demo ---
w = World()
r = w.repo("R1", [("newer", "1.5", {}), ("older", "1.10", {}), ("same", "1.0", {})])
w.put("newer", "2.0")
w.put("older", "1.9")
w.put("same", "1.0")
w.config(f"Threads: 2\nPackages:\n  - newer\n  - older\n  - same\nRepos:\n  - R1: {r}\n")
w.run("install")
expect(w.versions() == dict(newer="2.0", older="1.10", same="1.0"), "library: %s" % w.versions())
