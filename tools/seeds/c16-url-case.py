PROP = "C16"
NEEDS = "two repositories of the same name whose addresses differ in the case of letters only, used one after the other with the same cache"
BREAKS = "both addresses share a cache directory, so the package of the other repository is installed"
EDITS = [("cran/utils.go", """	io.WriteString(h, r.URL)
""", """	io.WriteString(h, strings.ToLower(strings.TrimSuffix(r.URL, "/")))
"""), ("cran/utils.go", """	"regexp"
	"runtime"
""", """	"regexp"
	"runtime"
	"strings"
""")]
# --- demo ---
import shutil
w = World()
r1 = w.repo("snap", [("a", "1.0", dict(Note="lower"))])
r2 = w.repo("SNAP", [("a", "1.0", dict(Note="upper"))])
for r, want in ((r1, "lower"), (r2, "upper")):
    w.config(f"Threads: 1\nPackages:\n  - a\nRepos:\n  - R1: {r}\n")
    w.run("install")
    got = (w.installed().get("a") or {}).get("Note")
    expect(got == want, "installed from the wrong repository: %s instead of %s" % (got, want))
    shutil.rmtree(w.lib)
