PROP = "C21"
NEEDS = "an environment variable whose value has an equals sign in it"
BREAKS = "builds see the value only up to that sign"
EDITS = [("rcmd/configure.go", """		evs := strings.SplitN(ev, "=", 2)
""", """		evs := strings.Split(ev, "=")
""")]
# --- demo ---
w = World()
r = w.repo("R1", [("a", "1.0", {})])
w.config(f"Threads: 1\nPackages:\n  - a\nRepos:\n  - R1: {r}\n")
w.run("install", env=dict(LINK_FLAGS="-Wl,-z=now -L/x=y"))
seen = {e["env"].get("LINK_FLAGS") for e in w.events if "env" in e}
expect(seen == {"-Wl,-z=now -L/x=y"}, "builds saw: %s" % seen)
