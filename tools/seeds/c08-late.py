PROP = "C08"
NEEDS = "a failure that is noted while another build is still running, and a package that becomes ready through that build"
BREAKS = "packages that become ready after the failure are still started"
EDITS = [("rcmd/install.go", """						if allInstalled && !anyFailed {
""", """						if allInstalled {
"""), ("rcmd/install.go", """			if anyFailed {
				// stop trying to install any more
""", """			if anyFailed && len(installedPkgs) == 0 {
				// stop trying to install any more
""")]
# --- demo ---
w = World()
w.policy({"bad": {"bf": 1}, "slow": {"bd": 1.5}})
r = w.repo("R1", [("bad", "1.0", {}), ("slow", "1.0", {}), ("next", "1.0", dict(Imports="slow"))])
w.config(f"Threads: 4\nPackages:\n  - bad\n  - next\nRepos:\n  - R1: {r}\n")
w.run("install")
expect("slow" in w.ev("BS") and "bad" in w.ev("BS"), "not built")
expect("next" not in w.ev("BS"), "next became ready after bad had failed, and was started")
