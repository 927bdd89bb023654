PROP = "C22"
NEEDS = "a token in the environment and a package whose build fails"
BREAKS = "the report of the failure shows the environment as it is"
EDITS = [("rcmd/install.go", """				"exit_code": exitCode,
				"package":  pkg,
			}).Error("cmd output")
""", """				"exit_code": exitCode,
				"package": pkg,
				"environ":  os.Environ(),
			}).Error("cmd output")
""")]
# --- demo ---
w = World()
w.policy({"bad": {"bf": 1}})
r = w.repo("R1", [("bad", "1.0", {})])
w.config(f"Threads: 1\nPackages:\n  - bad\nRepos:\n  - R1: {r}\n")
for level in ("trace", "info", "error"):
    w.run("install", env=dict(GITHUB_PAT="s3cr3t-value"), log=("--loglevel=" + level,))
    expect("s3cr3t-value" not in w.out, "the log shows the token at level " + level)
    expect("BS" in [e["ev"] for e in w.events], "nothing was built")
