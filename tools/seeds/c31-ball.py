PROP = "C31"
NEEDS = "a package that was built by an earlier run and is installed from the cache"
BREAKS = "R is asked to build what it installs from the cache, and leaves the result in the directory pkgr was called from"
EDITS = [("rcmd/install.go", """		// don't need to build since already a binary
		ir.InstallArgs.Build = false
		res, err := Install(fs,
""", """		// installed as it is
		res, err := Install(fs,
"""), ("rcmd/install.go", """	ir.InstallArgs.Library = tmpdir
""", """	ir.InstallArgs.Library = tmpdir
	ir.InstallArgs.Build = true
""")]
# --- demo ---
import shutil
w = World()
r = w.repo("R1", [("a", "1.0", {}), ("b", "1.0", {"Imports": "a"})])
w.config(f"Threads: 1\nPackages:\n  - b\nRepos:\n  - R1: {r}\n")
w.run("install")
shutil.rmtree(w.lib)
before = sorted(os.listdir(w.proj)) + ["lib"]
w.run("install")
expect(w.versions() == {"a": "1.0", "b": "1.0"}, f"installed: {w.versions()}")
expect(sorted(os.listdir(w.proj)) == sorted(before), f"left behind: {sorted(os.listdir(w.proj))}")
