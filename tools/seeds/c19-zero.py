PROP = "C19"
NEEDS = "a remembered database and R_AVAILABLE_PACKAGES_CACHE_CONTROL_MAX_AGE set to zero"
BREAKS = "the lifetime of zero is taken for unset, so a database of up to an hour of age is used"
EDITS = [("cran/repodb.go", """			} else {
				maxSecs = int(ms)
			}
""", """			} else if ms > 0 {
				maxSecs = int(ms)
			}
""")]
# --- demo ---
w = World()
r = w.repo("R1", [("a", "1.0", {})])
w.config(f"Threads: 1\nPackages:\n  - a\nRepos:\n  - R1: {r}\n")
w.run("plan")
w.repo("R1", [("a", "2.0", {})])
w.run("install", env=dict(R_AVAILABLE_PACKAGES_CACHE_CONTROL_MAX_AGE="0"))
expect(w.versions() == {"a": "2.0"}, "installed: %s" % w.versions())
