PROP = "C10"
NEEDS = "no thread count in the configuration and a GOMAXPROCS below the number of processors"
BREAKS = "as many builds run at once as there are processors"
EDITS = [("cmd/install.go", """	nworkers := getWorkerCount(cfg.Threads, runtime.GOMAXPROCS(0))
""", """	nworkers := getWorkerCount(cfg.Threads, runtime.NumCPU())
""")]
# --- demo ---
n = ["p%d" % i for i in range(8)]
w = World()
w.policy({x: {"bd": 1} for x in n})
r = w.repo("R1", [(x, "1.0", {}) for x in n])
w.config("Packages:\n" + "".join(f"  - {x}\n" for x in n) + f"Repos:\n  - R1: {r}\n")
w.run("install", env=dict(GOMAXPROCS="1"))
cur = top = 0
for e in sorted(w.events, key=lambda e: e["t"]):
    cur += {"BS": 1, "IS": 1, "BE": -1, "IE": -1}.get(e["ev"], 0)
    top = max(top, cur)
expect(top == 1, "%d builds at once" % top)
