PROP = "C25"
NEEDS = "a package installed from a build that an earlier run cached"
BREAKS = "the recorded installation type is source although a cached binary was installed"
EDITS = [("rcmd/install.go", """	ir.Metadata.Metadata.Config.Type = cran.Binary
	return true, ir
""", """	return true, ir
""")]
# --- demo ---
import shutil
w = World()
r = w.repo("R1", [("a", "1.0", {})])
w.config(f"Threads: 1\nPackages:\n  - a\nRepos:\n  - R1: {r}\n")
w.run("install")
expect(w.installed()["a"].get("PkgrInstallType") == "source", "first install: %s" % w.installed())
shutil.rmtree(w.lib)
w.run("install")
expect(w.ev("BS") == [] and w.ev("IS") == ["a"], "the cached build is not used: %s" % w.events)
expect(w.installed()["a"].get("PkgrInstallType") == "binary", "cached build: %s" % w.installed())
