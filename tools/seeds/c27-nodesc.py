PROP = "C27"
NEEDS = "a configured DESCRIPTION file that does not exist"
BREAKS = "the run carries on without the packages that file asks for, and succeeds"
EDITS = [("cmd/descriptionOps.go", """		if err != nil {
			logrus.WithFields(logrus.Fields{
				"file":  descPath,
				"error": err,
			}).Fatal("error opening DESCRIPTION file specified in Descriptions")
""", """		if os.IsNotExist(err) {
			logrus.WithField("file", descPath).Warn("no DESCRIPTION file there, going on without it")
			continue
		} else if err != nil {
			logrus.WithFields(logrus.Fields{
				"file":  descPath,
				"error": err,
			}).Fatal("error opening DESCRIPTION file specified in Descriptions")
"""), ("cmd/descriptionOps.go", """import (
""", """import (
	"os"

""")]
# --- demo ---
w = World()
r = w.repo("R1", [("a", "1.0", {}), ("b", "1.0", {})])
w.policy()
(w.root / "D").write_text("Package: proj\nVersion: 0.1\nImports: b\n")
w.config(f"Threads: 1\nPackages:\n  - a\nRepos:\n  - R1: {r}\nDescriptions:\n  - {w.root}/D\n  - {w.root}/gone/D\n")
x = w.run("install")
expect(x.returncode != 0 and not w.versions(), "exit status %s, the library holds %s" % (x.returncode, w.versions()))
