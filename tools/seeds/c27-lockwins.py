PROP = "C27"
NEEDS = "a configuration that names both a Library and the renv lock file"
BREAKS = "the library of renv takes the place of the one that is configured"
EDITS = [("configlib/config.go", """	if len(cfg.Library) == 0 {
""", """	if len(cfg.Library) == 0 || (cfg.Lockfile.Type == "renv" && !filepath.IsAbs(cfg.Library)) {
""")]
# --- demo ---
w = World()
r = w.repo("R1", [("a", "1.0", {})])
w.policy()
(w.root / "rbin/Rscript").write_text("#!/bin/bash\necho\necho '_pkgr_%s/other_pkgr_'\n" % w.root)
os.chmod(w.root / "rbin/Rscript", 0o755)
w.config(f"Threads: 1\nLockfile:\n  Type: renv\nPackages:\n  - a\nRepos:\n  - R1: {r}\n")
f = w.proj / "pkgr.yml"
f.write_text(f.read_text().replace(f"Library: {w.lib}", "Library: lib"))
w.run("install")
expect(w.versions() == {"a": "1.0"}, "the library holds %s" % w.versions())
