PROP = "C29"
NEEDS = "a disk that is full while a downloaded package is written to the cache"
BREAKS = "the cut-off file is kept in the cache as a complete download: R is handed it, and all later installs fail on it"
EDITS = [("cran/download-package.go", """	size, err := io.Copy(file, from)
""", """	content, err := ioutil.ReadAll(from)
	size := int64(len(content))
	if err == nil {
		file.Write(content)
	}
""")]
# --- demo ---
import random
build()
w = World()
r = w.repo("R1", [("pa", "1.0", {}), ("pb", "1.0", {"Imports": "pa"})])
rng = random.Random(3)
pad = "".join(rng.choice("abcdefghijklmnopqrstuvwxyz0123456789") for _ in range(200000))
(Path(r) / "src/contrib/pa_1.0.tar.gz").write_bytes(tgz("pa", "1.0", pad=pad))
w.config(f"Packages:\n  - pb\nRepos:\n  - R1: {r}\nThreads: 2\n")
w.run("install", fsize=60000)
expect("pa" not in w.versions(), "a package was installed that could not be downloaded")
expect(not [e for e in w.events if e["ev"] == "BAD"], "R was handed an incomplete package")
w.run("install")
expect(w.versions() == {"pa": "1.0", "pb": "1.0"}, f"after a run on a full disk no install succeeds: {w.versions()}")
expect(pad in (w.lib / "pa/R/code.R").read_text(), "the installed package is not the genuine one")
