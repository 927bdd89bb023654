PROP = "C26"
NEEDS = "reverse dependencies of a package that some packages need only through another one"
BREAKS = "only the packages next to it are listed"
EDITS = [("gpsr/dependencies.go", """		for _, p := range deps {
			d := idb[p]
			d = append(d, pkg)
			idb[p] = d
		}
""", """		through := make(map[string]bool)
		for _, p := range deps {
			for _, q := range ddb[p] {
				through[q] = true
			}
		}
		for _, p := range deps {
			// installing what lies between is what lets pkg be considered
			if !through[p] {
				idb[p] = append(idb[p], pkg)
			}
		}
""")]
# --- demo ---
w = World()
r = w.repo("R1", [("low", "1.0", {}), ("mid", "1.0", dict(Imports="low")), ("top", "1.0", dict(Imports="mid"))])
w.config(f"Threads: 1\nPackages:\n  - top\nRepos:\n  - R1: {r}\n")
w.run("inspect", "--deps", "--reverse", log=("--loglevel=fatal",))
got = json.loads(w.out[w.out.index("{"):])
expect({k: sorted(v) for k, v in got.items()} == {"low": ["mid", "top"], "mid": ["top"]}, "reverse dependencies: %s" % got)
