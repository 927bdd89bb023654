PROP = "C30"
NEEDS = "binary packages of a repository with a suffix, over http, and a second run"
BREAKS = "binary packages from repositories with a suffix are fetched again by every run although they are in the cache"
EDITS = [("cran/download-package.go", """	if exists {
		log.WithField("package", d.Package.Package).Debug("package already downloaded ")
""", """	if exists && (d.Config.Type == Source || d.Config.Repo.Suffix == "") {
		log.WithField("package", d.Package.Package).Debug("package already downloaded ")
""")]
# --- demo ---
import http.server, threading
import http.server, shutil, threading
w = World()
osr = dict(l.split("=", 1) for l in open("/etc/os-release").read().split("\n") if "=" in l)
sub = "bin/linux/%s/%s/s1/contrib/4.1" % (osr["ID"].strip('"'), osr["VERSION_CODENAME"].strip('"'))
recs = [("a", "1.0", {}), ("b", "1.0", {"Imports": "a"})]
w.repo("R1", recs)
w.repo("R1", [(n, v, dict(k, Built="R 4.1.2; ; x; unix")) for n, v, k in recs], sub=sub, suffix="tar.gz")
for n in "ab":
    (w.root / "repos/R1" / sub / f"{n}_1.0.tar.gz").rename(w.root / "repos/R1" / sub / f"{n}_1.0_R_x86_64-pc-linux-gnu.tar.gz")
asked = []


class H(http.server.SimpleHTTPRequestHandler):
    def __init__(self, *a):
        super().__init__(*a, directory=str(w.root / "repos"))

    def log_message(self, *a):
        pass

    def do_GET(self):
        asked.append(self.path)
        super().do_GET()


srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
threading.Thread(target=srv.serve_forever, daemon=True).start()
w.config(f"Threads: 1\nPackages:\n  - b\nRepos:\n  - R1: http://127.0.0.1:{srv.server_address[1]}/R1\nCustomizations:\n  Repos:\n    - R1:\n        RepoType: MPN\n        RepoSuffix: s1\n        Type: binary\n")
w.run("install")
expect(w.versions() == {"a": "1.0", "b": "1.0"}, f"installed: {w.versions()} {w.out[-600:]} {asked}")
expect(len([x for x in asked if "_R_x86_64" in x]) == 2, f"asked for {asked}")
shutil.rmtree(w.lib)
asked.clear()
w.run("install")
expect(w.versions() == {"a": "1.0", "b": "1.0"}, f"installed: {w.versions()}")
expect(not [x for x in asked if "_R_x86_64" in x], f"fetched again: {asked}")
