PROP = "C18"
NEEDS = "several configured tarballs of which an earlier one cannot be opened when the cache is cleaned"
BREAKS = "the unpacked copies of the later ones stay in the cache"
EDITS = [("cmd/cleanCache.go", """			log.WithField("file", tgzFile).Warn("could not find untarred directory in local cache for file")
			continue
""", """			log.WithField("file", tgzFile).Warn("could not find untarred directory in local cache for file")
			break
""")]
# --- demo ---
w = World()
r = w.repo("R1", [("a", "1.0", {})])
(w.proj / "t1.tar.gz").write_bytes(tgz("tb1", "1.0"))
(w.proj / "t2.tar.gz").write_bytes(tgz("tb2", "1.0"))
w.config(f"Threads: 1\nPackages:\n  - a\nTarballs:\n  - t1.tar.gz\n  - t2.tar.gz\nRepos:\n  - R1: {r}\n")
w.run("install")
expect(set(w.versions()) == {"a", "tb1", "tb2"}, "installed: %s" % w.versions())
expect(list(w.cache.rglob("tb2")), "nothing is unpacked")
os.rename(w.proj / "t1.tar.gz", w.proj / "away")
w.run("clean", "cache")
expect(not list(w.cache.rglob("tb2")), "still in the cache: %s" % list(w.cache.rglob("tb2")))
