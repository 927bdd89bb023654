PROP = "C21"
NEEDS = "an inherited R_LIBS_SITE while a cached build or a downloaded binary is installed"
BREAKS = "the inherited site library is visible to installations for which no library path is set"
EDITS = [("rcmd/configure.go", """			if evs[0] == "R_LIBS_SITE" {
""", """			if ok, _ := rs.LibPathsEnv(); ok && evs[0] == "R_LIBS_SITE" {
""")]
# --- demo ---
w = World()
r = w.repo("R1", [("a", "1.0", {})])
w.config(f"Threads: 1\nPackages:\n  - a\nRepos:\n  - R1: {r}\n")
w.run("install", env=dict(R_LIBS_SITE="/opt/site/library", OTHER="x"))
s = [e for e in w.events if e["ev"] in ("BS", "IS")]
expect(len(s) == 2, "not installed")
import shutil
shutil.rmtree(w.lib)
w.run("install", env=dict(R_LIBS_SITE="/opt/site/library", OTHER="x"))
s += [e for e in w.events if e["ev"] in ("BS", "IS")]
expect(len(s) == 3, "not installed from the cached build")
for e in s:
    expect("/opt/site" not in e["env"].get("R_LIBS_SITE", ""), "inherited site library in the %s pass" % e["ev"])
    expect(e["env"].get("OTHER") == "x", "OTHER is missing")
