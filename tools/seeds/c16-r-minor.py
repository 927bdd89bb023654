PROP = "C16"
NEEDS = "two installs with the same cache and R versions that differ in the minor version"
BREAKS = "builds are cached by the major version of R only, so a build of R 4.0 is installed under R 4.1"
EDITS = [("rcmd/install.go", """						bdir,
						rs.Version.ToString(),
						builtDir(cran.Source),
""", """						bdir,
						cacheRVersion(rs, cran.Source),
						builtDir(cran.Source),
"""), ("rcmd/install.go", """		"binary",
		ir.RSettings.Version.ToString(),
		builtDir(meta""", """		"binary",
		cacheRVersion(ir.RSettings, meta.Metadata.Config.Type),
		builtDir(meta"""), ("rcmd/install.go", """// InstallPackagePlan installs a set of packages by layer
""", """// cacheRVersion is the name of the directory packages are cached in
func cacheRVersion(rs RSettings, st cran.SourceType) string {
	if st != cran.Binary && rs.Version.Major >= 4 {
		return cran.RVersion{Major: rs.Version.Major}.ToString()
	}
	return rs.Version.ToString()
}

// InstallPackagePlan installs a set of packages by layer
""")]
# --- demo ---
import shutil
w = World()
w.policy({}, rversion="4.0.5")
r = w.repo("R1", [("a", "1.0", {})])
w.config(f"Threads: 1\nPackages:\n  - a\nRepos:\n  - R1: {r}\n")
w.run("install")
expect(w.installed().get("a", {}).get("Built", "").startswith("R 4.0.5"), "first install: %s" % w.installed())
w.run("install")
shutil.rmtree(w.lib)
w.policy({}, rversion="4.0.5")
w.run("install")
shutil.rmtree(w.lib)
w.policy({}, rversion="4.1.2")
w.run("install")
expect(w.installed().get("a", {}).get("Built", "").startswith("R 4.1.2"), "installed under R 4.1.2: %s" % w.installed())
