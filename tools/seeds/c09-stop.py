PROP = "C09"
NEEDS = "a build that fails while another one is under way"
BREAKS = "the outcomes of the builds under way are not taken in any more, so the run waits for them forever"
EDITS = [("rcmd/worker.go", """	for {
		iu := <-i.UpdateQueue
		if iu.ShouldUpdate {
			fn(iu)
		}
""", """	for iu := range i.UpdateQueue {
		if iu.ShouldUpdate {
			fn(iu)
		}
		if iu.Err != nil {
			// nothing more is started after a failure
			return
		}
""")]
# --- demo ---
w = World()
w.policy({"bad": {"bf": 1, "bd": 0.3}, "good": {"bd": 2}})
r = w.repo("R1", [("bad", "1.0", {}), ("good", "1.0", {})])
w.config(f"Threads: 2\nPackages:\n  - bad\n  - good\nRepos:\n  - R1: {r}\n")
w.run("install", timeout=45)
expect("bad" in w.ev("BS"), "nothing built")
