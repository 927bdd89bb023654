PROP = "C30"
NEEDS = "a package whose build fails while another one is being built, and a further run"
BREAKS = "what was built in a run in which something failed is thrown away and has to be built again"
EDITS = [("rcmd/install.go", """				if iu.BinaryPath != "" {
""", """				// after a failure everything is undone
				if iu.BinaryPath != "" && !anyFailed {
""")]
# --- demo ---
w = World()
w.policy({"bad": {"bf": 1}, "good": {"bd": 2}})
r = w.repo("R1", [("bad", "1.0", {}), ("good", "1.0", {})])
w.config(f"Threads: 2\nPackages:\n  - bad\n  - good\nRepos:\n  - R1: {r}\n")
w.run("install")
n = len([e for e in w.events if e["ev"] == "BS" and e["pkg"] == "good"])
expect(n == 1, f"good was built {n} times in the first run")
w.policy({})
w.run("install")
expect(w.versions() == {"bad": "1.0", "good": "1.0"}, f"installed: {w.versions()}")
expect("good" not in w.ev("BS"), "good was built again")
