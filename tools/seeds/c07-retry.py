PROP = "C07"
NEEDS = "a build that is killed by a signal"
BREAKS = "the build is started a second time"
EDITS = [("rcmd/worker.go", """				res, bPath, err := w.InstallFunc(appFS, ir, ir.Cache)
""", """				res, bPath, err := w.install(appFS, ir)
"""), ("rcmd/worker.go", """// Stop tells""", """func (w *Worker) install(fs afero.Fs, ir InstallRequest) (CmdResult, string, error) {
	res, bPath, err := w.InstallFunc(fs, ir, ir.Cache)
	if res.ExitCode == -1 {
		// killed from outside, for example for want of memory
		res, bPath, err = w.InstallFunc(fs, ir, ir.Cache)
	}
	return res, bPath, err
}

// Stop tells""")]
# --- demo ---
w = World()
f = w.root / "rbin/R"
f.write_text(f.read_text().replace("rc = p.get(", "rc = 0\nif p.get('sig') and k == 'B':\n    os.kill(os.getpid(), 9)\nrc = p.get(", 1))
w.policy({"crash": {"sig": 1}})
r = w.repo("R1", [("crash", "1.0", {}), ("good", "1.0", {})])
w.config(f"Threads: 1\nPackages:\n  - crash\n  - good\nRepos:\n  - R1: {r}\n")
w.run("install", timeout=60)
expect(w.ev("BS").count("crash") == 1, "builds started: %s" % w.ev("BS"))
