PROP = "C27"
NEEDS = "an RPath together with the renv lock file and no Library"
BREAKS = "another R than the configured one is asked for the library"
EDITS = [("configlib/config.go", """	rs := rcmd.NewRSettings(rpath)
	res, err""", """	rs := rcmd.NewRSettings("R")
	res, err""")]
# --- demo ---
w = World()
r = w.repo("R1", [("a", "1.0", {})])
w.policy()
for d, l in ((w.root / "rbin", w.lib), (w.root / "bin", w.root / "other")):
    d.mkdir(exist_ok=True)
    (d / "Rscript").write_text("#!/bin/bash\necho\necho '_pkgr_%s_pkgr_'\n" % l)
    os.chmod(d / "Rscript", 0o755)
shutil.copy(w.root / "rbin/R", w.root / "bin/R")
w.config(f"Threads: 1\nLockfile:\n  Type: renv\nPackages:\n  - a\nRepos:\n  - R1: {r}\n")
f = w.proj / "pkgr.yml"
f.write_text(f.read_text().replace(f"Library: {w.lib}\n", ""))
w.run("install", env=dict(PATH=f"{w.root}/bin:/usr/local/bin:/usr/bin:/bin"))
expect(w.versions() == {"a": "1.0"}, "the library holds %s" % w.versions())
