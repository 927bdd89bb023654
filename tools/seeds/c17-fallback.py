PROP = "C17"
NEEDS = "the download of a binary package that fails while the source package is there"
BREAKS = "the source package is stored in the cache under the name of the binary"
EDITS = [("cran/download-package.go", """			dl, err := DownloadPackage(fs, d, pkgFile, rv, noSecure)
			if err != nil {
""", """			dl, err := downloadEither(fs, d, pkgFile, rv, noSecure)
			if err != nil {
"""), ("cran/download-package.go", """// DownloadPackage should download""", """func downloadEither(fs afero.Fs, d PkgDl, dest string, rv RVersion, noSecure bool) (Download, error) {
	dl, err := DownloadPackage(fs, d, dest, rv, noSecure)
	if err != nil && d.Config.Type == Binary {
		// the source package will do
		srcFile := filepath.Join(filepath.Dir(dest), fmt.Sprintf("%s_%s.tar.gz", d.Package.Package, d.Package.Version))
		src := d
		src.Config.Type = Source
		dl, err = DownloadPackage(fs, src, srcFile, rv, noSecure)
		if err == nil {
			err = fs.Rename(dl.Path, dest)
			dl.Path, dl.Metadata = dest, d
		}
	}
	return dl, err
}

// DownloadPackage should download""")]
# --- demo ---
import http.server
w = World()
osr = dict(l.split("=", 1) for l in open("/etc/os-release").read().splitlines() if "=" in l)
sub = "bin/linux/%s/%s/contrib/4.1" % (osr["ID"].strip('"'), osr["VERSION_CODENAME"].strip('"'))
w.repo("R1", [("a", "1.0", {})])
w.repo("R1", [("a", "1.0", dict(Built="R 4.1.2; ; x; unix"))], sub=sub, suffix="x")
os.rename(w.root / "repos/R1" / sub / "a_1.0.x", w.root / "repos/R1" / sub / "a_1.0_R_x86_64-pc-linux-gnu.tar.gz")
state = dict(bad=True)


class H(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        f = w.root / "repos" / self.path.lstrip("/")
        if "_R_x86" in self.path and state["bad"]:
            code, b = 503, b"later"
        elif f.is_file():
            code, b = 200, f.read_bytes()
        else:
            code, b = 404, b""
        self.send_response(code)
        self.send_header("Content-Length", str(len(b)))
        self.end_headers()
        self.wfile.write(b)

    def log_message(self, *a):
        pass


srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
threading.Thread(target=srv.serve_forever, daemon=True).start()
w.config(f"Threads: 1\nPackages:\n  - a\nRepos:\n  - R1: http://127.0.0.1:{srv.server_address[1]}/R1\nCustomizations:\n  Repos:\n    - R1:\n        RepoType: MPN\n")
w.run("install")
state["bad"] = False
shutil.rmtree(w.lib, ignore_errors=True)
w.run("install")
got = (w.installed().get("a") or {}).get("Origin")
expect(got == "R1-bin", "installed, once the server is back: %s" % got)
