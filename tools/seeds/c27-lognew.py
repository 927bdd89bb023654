PROP = "C27"
NEEDS = "a log file that has content already, and that is not to be overwritten"
BREAKS = "what the file held is written over"
EDITS = [("logger/logger.go", """			osFlag = os.O_CREATE | os.O_APPEND | os.O_RDWR
""", """			osFlag = os.O_CREATE | os.O_RDWR
""")]
# --- demo ---
w = World()
r = w.repo("R1", [("a", "1.0", {})])
w.policy()
w.config(f"Threads: 1\nPackages:\n  - a\nRepos:\n  - R1: {r}\nLogging:\n  All: all.log\n")
(w.proj / "all.log").write_text("from before\n")
w.run("install")
expect((w.proj / "all.log").read_text().startswith("from before\n"), "the log file lost what it held")
