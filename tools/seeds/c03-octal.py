PROP = "C03"
NEEDS = "a version with a component that has a leading zero at the third place (1.0.08, 0.0.010)"
BREAKS = "the component is read as an octal number, so that such a version counts as older or equal where it is newer"
EDITS = [("desc/version.go", """		ver.Patch, _ = strconv.Atoi(parts[2])
""", """		patch, _ := strconv.ParseInt(parts[2], 0, 0)
		ver.Patch = int(patch)
""")]
# --- demo ---
w = World()
r = w.repo("R1", [("a", "1.0.010", {}), ("b", "1.0.08", {})])
w.put("a", "1.0.9")
w.put("b", "1.0.7")
w.config(f"Threads: 1\nPackages:\n  - a\n  - b\nRepos:\n  - R1: {r}\n")
w.run("install")
expect(w.versions() == {"a": "1.0.010", "b": "1.0.08"}, "installed: %s" % w.versions())
