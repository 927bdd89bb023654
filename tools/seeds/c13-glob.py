PROP = "C13"
NEEDS = "a file in the library whose name begins like that of a backup directory"
BREAKS = "it is deleted at the end of a run"
EDITS = [("rollback/types.go", """	err2 := DeleteBackupPackageFolders(fs, rp.AdditionalPkgRollbacks)
	if err2 != nil {
		errSlice = append(errSlice, err2)
	}
""", """	// the backups of the tarballs' packages are all that is left
	backups, _ := afero.Glob(fs, filepath.Join(rp.Library, "__OLD__*"))
	for _, b := range backups {
		err2 := removePackage(fs, b)
		if err2 != nil {
			errSlice = append(errSlice, err2)
		}
	}
"""), ("rollback/types.go", """import (
""", """import (
	"path/filepath"

""")]
# --- demo ---
w = World()
r = w.repo("R1", [("a", "1.0", {})])
w.put("b", "1.0")
(w.lib / "__OLD__notes.txt").write_text("mine\n")
w.config(f"Threads: 1\nPackages:\n  - a\nRepos:\n  - R1: {r}\n")
w.run("install")
expect("__OLD__notes.txt" in os.listdir(w.lib), "the library: %s" % os.listdir(w.lib))
expect("a" in os.listdir(w.lib), "a was not installed")
