PROP = "C26"
NEEDS = "a dependency that two packages of the plan share and that has dependencies itself, shown as a tree"
BREAKS = "below the second occurrence of a package the tree shows no dependencies"
EDITS = [("cmd/inspect.go", """func recurseDeps(pkg string, ddb gpsr.InstallPlan, t treeprint.Tree) {
""", """var shownDeps = make(map[string]bool)

func recurseDeps(pkg string, ddb gpsr.InstallPlan, t treeprint.Tree) {
"""), ("cmd/inspect.go", """	if len(pkgDeps) == 0 {
		return
	}
""", """	if len(pkgDeps) == 0 || shownDeps[pkg] {
		return
	}
	// shown once is enough
	shownDeps[pkg] = true
""")]
# --- demo ---
w = World()
r = w.repo("R1", [("base1", "1.0", {}), ("mid", "1.0", dict(Imports="base1")), ("pkgx", "1.0", dict(Imports="mid")), ("pkgy", "1.0", dict(Imports="mid"))])
w.config(f"Threads: 1\nPackages:\n  - pkgx\n  - pkgy\nRepos:\n  - R1: {r}\n")
w.run("inspect", "--deps", "--tree", log=("--loglevel=fatal",))
lines = [l for l in w.out.splitlines() if l.strip()]
n = sum("mid" in l for l in lines)
depth2 = [l for l in lines if "base1" in l]
# mid: as a root, below x, below y; base1: below each mid, and below x and y directly
expect(n == 3, "tree: %s" % w.out)
expect(len(depth2) == 5, "the tree does not show the dependencies of mid everywhere:\n%s" % w.out)
