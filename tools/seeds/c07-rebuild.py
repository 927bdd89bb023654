PROP = "C07"
NEEDS = "a build whose second pass, the installation of the binary into the library, fails"
BREAKS = "the build of the package is started a second time in the same run"
EDITS = [("rcmd/install.go", """			ir.ExecSettings,
			ir)
		return res, binaryBall, err
""", """			ir.ExecSettings,
			ir)
		if err == nil && res.ExitCode == 0 {
			return res, binaryBall, nil
		}
		// the binary may be unusable here, fall back to the sources
		ib.Build = false
		res, err = Install(fs, ir.Package, ir.Metadata.Path, ib, ir.RSettings, ir.ExecSettings, ir)
		return res, "", err
""")]
# --- demo ---
w = World()
w.policy({"bad": {"if": 1}})
r = w.repo("R1", [("bad", "1.0", {}), ("good", "1.0", {})])
w.config(f"Threads: 2\nPackages:\n  - bad\n  - good\nRepos:\n  - R1: {r}\n")
w.run("install")
s = [x for x in w.events if x["pkg"] == "bad" and x["ev"] in ("BS", "IS", "TS")]
expect(len(s) == 2, "bad is started more than once: %s" % [(x["ev"], x["path"][-20:]) for x in s])
expect("good" in w.ev("IE"), "good not installed")
