PROP = "C09"
NEEDS = "a build whose R process is ended by a signal"
BREAKS = "the outcome of a build that was ended by a signal (exit status -1) is never taken note of, so the run waits for it forever"
EDITS = [("rcmd/worker.go", """					ShouldUpdate: true,
""", """					ShouldUpdate: res.ExitCode >= 0 || res.ExitCode == -999,
""")]
# --- demo ---
w = World()
f = w.root / "rbin/R"
f.write_text(f.read_text().replace("rc = p.get(", "rc = 0\nif p.get('sig') and k == 'B':\n    os.kill(os.getpid(), 9)\nrc = p.get(", 1))
w.policy({"crash": {"sig": 1}})
r = w.repo("R1", [("crash", "1.0", {}), ("good", "1.0", {})])
w.config(f"Threads: 2\nPackages:\n  - crash\n  - good\nRepos:\n  - R1: {r}\n")
w.run("install", timeout=40)
expect("BS" in [e["ev"] for e in w.events], "nothing built")
