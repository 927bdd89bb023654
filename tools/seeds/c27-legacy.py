PROP = "C27"
NEEDS = "--update on the command line and NoUpdate in the configuration file"
BREAKS = "the flag is without effect: the outdated package stays"
EDITS = [("cmd/root.go", """	if update {
		cfg.NoUpdate = false
	}
""", """	if update && !viper.InConfig("noupdate") {
		cfg.NoUpdate = false
	}
""")]
# --- demo ---
w = World()
r = w.repo("R1", [("a", "1.1", {})])
w.policy()
w.put("a", "1.0")
w.config(f"Threads: 1\nNoUpdate: true\nPackages:\n  - a\nRepos:\n  - R1: {r}\n")
w.run("install", "--update")
expect(w.versions() == {"a": "1.1"}, "the library holds %s" % w.versions())
