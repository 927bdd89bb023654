PROP = "C06"
NEEDS = "an outdated dependency that is being rebuilt, and a package that needs it together with a dependency that finishes earlier"
BREAKS = "a package counts as installed when an older version of it was in the library before the run, so its dependents start before its update is there"
EDITS = [("rcmd/install.go", """							_, installed := installedPkgs[d]
							if !installed {
""", """							_, present := plan.InstalledPackages[d]
							if !installedPkgs[d] && !present {
""")]
# --- demo ---
w = World()
w.policy(dict(slow=dict(bd=1.5), app=dict()))
r = w.repo("R1", [("slow", "2.0", {}), ("quick", "1.0", {}), ("app", "1.0", dict(Imports="slow, quick"))])
w.put("slow", "1.0")
w.config(f"Threads: 4\nPackages:\n  - app\nRepos:\n  - R1: {r}\n")
w.run("install")
e = [x["ev"] + x["pkg"] for x in w.events]
expect("BSapp" in e and "IEslow" in e, "packages not built: %s" % e)
expect(e.index("IEslow") < e.index("BSapp"), "app is built before slow is installed: %s" % e)
