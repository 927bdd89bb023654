PROP = "C10"
NEEDS = "more binary packages ready at once than there are workers"
BREAKS = "workers hand binary packages to goroutines of their own, so any number of them is installed at the same time"
EDITS = [("rcmd/worker.go", """				startTime := time.Now()
				log.WithFields(log.Fields{
					"WID":     w.ID,
					"package": ir.Package,
				}).Trace("package install request received")
				res, bPath, err := w.InstallFunc(appFS, ir, ir.Cache)
""", """				startTime := time.Now()
				log.WithFields(log.Fields{
					"WID":     w.ID,
					"package": ir.Package,
				}).Trace("package install request received")
				if ir.Metadata.Metadata.Config.Type == cran.Binary {
					// nothing to build, no need to keep the worker busy
					go func(ir InstallRequest) {
						res, bPath, err := w.InstallFunc(appFS, ir, ir.Cache)
						w.UpdateQueue <- InstallUpdate{Result: res, Package: ir.Package, BinaryPath: bPath, Err: err, ShouldUpdate: true}
					}(ir)
					continue
				}
				res, bPath, err := w.InstallFunc(appFS, ir, w.cacheOf(ir))
"""), ("rcmd/worker.go", """// Stop tells""", """func (w *Worker) cacheOf(ir InstallRequest) PackageCache {
	return ir.Cache
}

// Stop tells"""), ("rcmd/worker.go", """	log "github.com/sirupsen/logrus"
""", """	"github.com/metrumresearchgroup/pkgr/cran"
	log "github.com/sirupsen/logrus"
""")]
# --- demo ---
w = World()
names = ["p%d" % i for i in range(6)]
w.policy({n: {"id": 0.6} for n in names})
import re
os_release = dict(l.split("=", 1) for l in open("/etc/os-release").read().splitlines() if "=" in l)
sub = "bin/linux/%s/%s/contrib/4.1" % (os_release["ID"].strip('"'), os_release["VERSION_CODENAME"].strip('"'))
r = w.repo("R1", [(n, "1.0", dict(Built="R 4.1.2")) for n in names], sub=sub, suffix="R_x86_64-pc-linux-gnu.tar.gz")
for f in (w.root / "repos/R1" / sub).glob("*.gz"):
    f.rename(f.with_name(f.name.replace("1.0.R_", "1.0_R_")))
w.repo("R1", [], sub="src/contrib")
w.config("Threads: 2\nPackages:\n" + "".join(f"  - {n}\n" for n in names) + f"Repos:\n  - R1: {r}\nCustomizations:\n  Repos:\n    - R1:\n        RepoType: MPN\n")
w.run("install")
n = m = 0
for e in w.events:
    n += (e["ev"][1] == "S") - (e["ev"][1] == "E")
    m = max(m, n)
expect(len(w.ev("IE")) == 6, "not all packages installed: %s %s" % (w.events, w.out[-1500:]))
expect(m <= 2, "%d builds at the same time with 2 threads" % m)
