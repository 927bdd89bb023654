PROP = "C24"
NEEDS = "a package that loads but whose location and version R cannot tell"
BREAKS = "the package is reported as one that failed to load"
EDITS = [("cmd/load.go", """		didSucceed,
""", """		didSucceed && additionalInfo.pkgVersion != "could not retrieve",
""")]
# --- demo ---
w = World()
r = w.repo("R1", [("a", "1.0", {}), ("b", "1.0", {})])
w.policy({}, installed={"b": "1.0"})
w.config(f"Threads: 1\nPackages:\n  - a\n  - b\nRepos:\n  - R1: {r}\n")
w.run("load", "--json", log=())
rep = json.loads(w.out[w.out.index("{"):])
lr = next(v for v in rep.values() if isinstance(v, dict) and "a" in v)
ok = {k: next(x for y, x in v.items() if y.lower() == "success") for k, v in lr.items()}
expect(ok == {"a": True, "b": True}, "reported: %s" % ok)
