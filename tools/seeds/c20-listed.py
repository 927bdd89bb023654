PROP = "C20"
NEEDS = "adding several packages of which an earlier one is listed already"
BREAKS = "packages named after one that is already listed are not added"
EDITS = [("configlib/add_package.go", """			continue
		}
		pkgsToInstall""", """			break
		}
		pkgsToInstall""")]
# --- demo ---
w = World()
w.config("Packages:\n  - a\n  - b\nRepos:\n  - R1: /nowhere\n")
w.run("add", "c", "b", "d")
t = (w.proj / "pkgr.yml").read_text()
got = sorted(l.strip()[2:] for l in t.split("Packages:")[1].split("Repos:")[0].splitlines() if l.strip())
expect(got == ["a", "b", "c", "d"], "listed: %s" % got)
