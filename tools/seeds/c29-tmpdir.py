PROP = "C29"
NEEDS = "a temporary directory that cannot be made, and a package whose built form R then cannot install"
BREAKS = "the package is built in the library itself, where the built package is left behind"
EDITS = [("rcmd/install.go", """		log.Fatalf("could not make tmpdir at: %s to install package", tmpdir)
""", """		log.Warnf("could not make tmpdir at: %s to install package, using the library", tmpdir)
		tmpdir = ir.InstallArgs.Library
""")]
# --- demo ---
build()
w = World()
r = w.repo("R1", [("pa", "1.0", {}), ("pb", "1.0", {"Imports": "pa"})])
w.config(f"Packages:\n  - pb\nRepos:\n  - R1: {r}\nThreads: 2\n")
w.lib.mkdir()
(w.root / "file").write_text("not a directory")
w.policy({"pb": {"if": 1}})
w.run("install", env=dict(TMPDIR=str(w.root / "file/tmp")))
w.policy({})
w.run("install")
expect(sorted(os.listdir(w.lib)) == ["pa", "pb"], f"left in the library: {sorted(os.listdir(w.lib))}")
