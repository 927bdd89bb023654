PROP = "C03"
NEEDS = "an upper limit on R that names two components only, equal to those of the R in use (R <= 4.1 with R 4.1.2)"
BREAKS = "the record counts as usable although the R version is above the limit"
EDITS = [("cran/repodb.go", """		packageValid = desc.CompareVersions(installationVersion, pkgRConstraint.Version) <= 0
""", """		limit := pkgRConstraint.Version
		if strings.Count(limit.String, ".") < 2 {
			// all patch versions of the named one
			limit.Patch = installationVersion.Patch
		}
		packageValid = desc.CompareVersions(installationVersion, limit) <= 0
""")]
# --- demo ---
w = World()
r = w.repo("R1", [("a", "1.0", dict(Depends="R (<= 4.1)")), ("b", "1.0", dict(Depends="R (<= 4.1.2)"))])
for p, rc in (("a", 1), ("b", 0)):
    w.config(f"Threads: 1\nPackages:\n  - {p}\nRepos:\n  - R1: {r}\n")
    w.run("plan")
    expect(w.rc == rc, "%s is%s usable with R 4.1.2" % (p, " not" if w.rc else ""))
