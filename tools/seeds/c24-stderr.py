PROP = "C24"
NEEDS = "a package that fails to load without writing to standard error"
BREAKS = "a failure without messages is not counted"
EDITS = [("cmd/structs.go", """	if !result.Success {
""", """	if !result.Success && (result.Stderr != "" || result.Stdout != "") {
""")]
# --- demo ---
w = World()
r = w.repo("R1", [("a", "1.0", {}), ("b", "1.0", {})])
w.policy({"a": {"lf": 1}, "b": {"lf": 1, "err": "oh\n"}}, installed={"a": "1.0", "b": "1.0"})
w.config(f"Threads: 1\nPackages:\n  - a\n  - b\nRepos:\n  - R1: {r}\n")
w.run("load", "--json", log=())
rep = json.loads(w.out[w.out.index("{"):])
bad = sum(not x["Success"] for x in rep["LoadResults"].values())
expect(bad == 2 and rep["Failures"] == 2, "%d unsuccessful results, failure count %s" % (bad, rep["Failures"]))
