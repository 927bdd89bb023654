PROP = "C30"
NEEDS = "runs over one cache by versions of R that differ in the patch level only"
BREAKS = "builds are kept per patch level of R, so after an upgrade from 4.1.2 to 4.1.3 all packages are built again"
EDITS = [("rcmd/install.go", """						bdir,
						rs.Version.ToString(),
						builtDir(cran.Source),
""", """						bdir,
						cacheRVersion(rs, cran.Source),
						builtDir(cran.Source),
"""), ("rcmd/install.go", """		"binary",
		ir.RSettings.Version.ToString(),
		builtDir(meta""", """		"binary",
		cacheRVersion(ir.RSettings, meta.Metadata.Config.Type),
		builtDir(meta"""), ("rcmd/install.go", """// InstallPackagePlan installs a set of packages by layer
""", """// cacheRVersion is the name of the directory packages are cached in
func cacheRVersion(rs RSettings, st cran.SourceType) string {
	if st != cran.Binary && rs.Version.Patch > 0 {
		return rs.Version.ToFullString()
	}
	return rs.Version.ToString()
}

// InstallPackagePlan installs a set of packages by layer
""")]
# --- demo ---
import shutil
w = World()
w.policy({}, rversion="4.1.2")
r = w.repo("R1", [("a", "1.0", {}), ("b", "1.0", {"Imports": "a"})])
w.config(f"Threads: 1\nPackages:\n  - b\nRepos:\n  - R1: {r}\n")
w.run("install")
expect(w.versions() == {"a": "1.0", "b": "1.0"}, f"installed: {w.versions()}")
shutil.rmtree(w.lib)
w.policy({}, rversion="4.1.3")
w.run("install")
expect(w.versions() == {"a": "1.0", "b": "1.0"}, f"installed: {w.versions()}")
expect(not [e for e in w.events if e["ev"] == "BS"], "built again by the same minor version of R")
