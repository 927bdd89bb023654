PROP = "C27"
NEEDS = "a list of tarballs of which a later one begins with ~ while an earlier one does not"
BREAKS = "entries after one that begins otherwise are not expanded"
EDITS = [("configlib/config.go", """	cfg.Tarballs = expandTildes(cfg.Tarballs)
""", """	if len(cfg.Tarballs) > 0 && strings.HasPrefix(cfg.Tarballs[0], "~") {
		cfg.Tarballs = expandTildes(cfg.Tarballs)
	}
""")]
# --- demo ---
w = World()
r = w.repo("R1", [("a", "1.0", {})])
w.policy()
for p in ("t", "u"):
    (w.root / f"home/{p}_1.0.tar.gz").write_bytes(tgz(p, "1.0"))
w.config(f"Threads: 1\nPackages:\n  - a\nTarballs:\n  - {w.root}/home/t_1.0.tar.gz\n  - ~/u_1.0.tar.gz\nRepos:\n  - R1: {r}\n")
w.run("install")
expect(w.versions() == {"a": "1.0", "t": "1.0", "u": "1.0"}, "the library holds %s" % w.versions())
