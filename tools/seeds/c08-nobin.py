PROP = "C08"
NEEDS = "a build that R reports as successful without having written the binary"
BREAKS = "the package counts as installed, so the packages that depend on it are built without it"
EDITS = [("rcmd/install.go", """			res.ExitCode = 1
			return res, "", errors.New("no binary found")
""", """			res.ExitCode = 1
			return res, "", err
"""), ("rcmd/install.go", """	"errors"
	"fmt"
	"io"
""", """	"fmt"
	"io"
""")]
# --- demo ---
w = World()
w.policy({"low": {"nobin": 1}})
r = w.repo("R1", [("low", "1.0", {}), ("top", "1.0", dict(Imports="low"))])
w.config(f"Threads: 1\nPackages:\n  - top\nRepos:\n  - R1: {r}\n")
w.run("install")
expect("top" not in w.ev("BS"), "top was built although low is not installed")
expect(not w.lib.exists() or not w.versions(), "left: %s" % (w.versions() if w.lib.exists() else ""))
