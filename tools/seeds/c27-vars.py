PROP = "C27"
NEEDS = "a variable that is set but empty, or not set at all, written in the configuration file"
BREAKS = "the text of the variable stays where nothing belongs"
EDITS = [("configlib/config.go", """	expb := []byte(os.ExpandEnv(string(b)))
""", """	expb := []byte(os.Expand(string(b), func(name string) string {
		if v := os.Getenv(name); v != "" {
			return v
		}
		return "${" + name + "}"
	}))
""")]
# --- demo ---
w = World()
r = w.repo("R1", [("a", "1.0", {})])
w.policy()
w.config(f"Threads: 1\nPackages:\n  - a\nRepos:\n  - R1: {r}\n")
f = w.proj / "pkgr.yml"
f.write_text(f.read_text().replace(f"Library: {w.lib}", "Library: ${WHERE}lib"))
w.run("install", env=dict(WHERE=""))
expect(w.versions() == {"a": "1.0"}, "the library holds %s" % w.versions())
