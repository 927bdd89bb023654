PROP = "C11"
NEEDS = "the installation of a configured tarball that is killed by a signal or cannot be started"
BREAKS = "the run counts as successful, so the library is not restored"
EDITS = [("cmd/install.go", """			log.WithFields(logFields).Error("error installing package")
			errorAggregator = append(errorAggregator, err)
""", """			log.WithFields(logFields).Error("error installing package")
			if res.ExitCode > 0 {
				errorAggregator = append(errorAggregator, err)
			}
""")]
# --- demo ---
w = World()
f = w.root / "rbin/R"
f.write_text(f.read_text().replace("rc = p.get(", "rc = 0\nif p.get('sig') and k == 'T':\n    os.kill(os.getpid(), 9)\nrc = p.get(", 1))
w.policy({"tb": {"sig": 1}})
r = w.repo("R1", [("a", "1.0", {})])
(w.proj / "tb.tar.gz").write_bytes(tgz("tb", "2.0"))
w.put("tb", "1.0")
w.config(f"Threads: 1\nPackages:\n  - a\nTarballs:\n  - tb.tar.gz\nRepos:\n  - R1: {r}\n")
w.run("install")
expect(w.versions() == {"tb": "1.0"}, "after the failed run: %s" % w.versions())
