PROP = "C11"
NEEDS = "a failing run that both updates a package and overwrites another one from a tarball"
BREAKS = "the packages overwritten by tarballs are not put back when updated packages were rolled back too; their backups are deleted"
EDITS = [("rollback/operations.go", """	}

	//Rollback additional packages -- same process as updated packages, but we hold them in a separate object.
	if len(rbp.AdditionalPkgRollbacks) > 0 {
""", """	} else if len(rbp.AdditionalPkgRollbacks) > 0 {
		//Rollback additional packages -- same process as updated packages, but we hold them in a separate object.
""")]
# --- demo ---
w = World()
w.policy({"bad": {"bf": 1}})
r = w.repo("R1", [("upd", "2.0", {}), ("bad", "1.0", {})])
(w.proj / "tb.tar.gz").write_bytes(tgz("tb", "3.0"))
w.put("upd", "1.0")
w.put("tb", "1.0")
w.config(f"Threads: 2\nPackages:\n  - upd\n  - bad\nTarballs:\n  - tb.tar.gz\nRepos:\n  - R1: {r}\n")
w.run("install")
expect(w.versions() == dict(upd="1.0", tb="1.0"), "library after the failed run: %s" % w.versions())
