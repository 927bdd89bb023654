PROP = "C18"
NEEDS = "cleaning the cache of a repository by name when no directory of that name is in the cache, while other repositories' are"
BREAKS = "cleaning the packages of a repository that has none cached removes those of every repository"
EDITS = [("cmd/cleanCache.go", """		repos = strings.Split(reposToClear, ",")
		if len(repos) == 0 {
""", """		for _, repo := range strings.Split(reposToClear, ",") {
			if exists, _ := afero.DirExists(fs, filepath.Join(cachePath, repo)); exists {
				repos = append(repos, repo)
			} else {
				log.WithField("repo", repo).Debug("nothing is cached for repository")
			}
		}
		if reposToClear == "" {
""")]
# --- demo ---
w = World()
ra = w.repo("A", [("a", "1.0", {})])
w.config(f"Threads: 1\nPackages:\n  - a\nRepos:\n  - CRAN: {ra}\n")
w.run("install")
expect(w.versions() == {"a": "1.0"}, "installed: %s" % w.versions())
before = sorted(str(p) for p in w.cache.rglob("*"))
expect(before, "nothing is cached")
w.run("clean", "cache", "--repos=Elsewhere-0123456789ab")
expect(sorted(str(p) for p in w.cache.rglob("*")) == before, "cleaning the packages of a repository without any removed others")
[d] = os.listdir(w.cache)
w.run("clean", "cache", "--repos=" + d)
expect(not [p for p in w.cache.rglob("*") if p.is_file()], "cleaning by name leaves packages")
