PROP = "C06"
NEEDS = "a package with more than twenty dependencies, one of which takes longer than the others"
BREAKS = "the package is built before the dependencies that are not looked at are in the library"
EDITS = [("rcmd/install.go", """						for _, d := range needDeps {
							_, installed""", """						for k, d := range needDeps {
							if k >= 20 && len(installedPkgs) >= 20 {
								break
							}
							_, installed""")]
# --- demo ---
n = ["p%02d" % i for i in range(26)]
for slow in n[:6] + n[-6:]:
    w = World()
    w.policy({slow: {"bd": 3}})
    r = w.repo("R1", [(x, "1.0", {}) for x in n] + [("top", "1.0", dict(Imports=", ".join(n)))])
    w.config(f"Threads: 8\nPackages:\n  - top\nRepos:\n  - R1: {r}\n")
    w.run("install")
    early = [e["pkg"] for e in w.events if e["ev"] == "BS" and e["pkg"] == "top" and not set(n) <= set(e["have"])]
    expect(not early, "built before their dependencies were in the library: %s" % early)
