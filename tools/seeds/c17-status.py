PROP = "C17"
NEEDS = "a server that answers a download with a status that is neither 200 nor an error above 400 (300 without an address to go to, 202)"
BREAKS = "the body of that answer is kept in the cache as the package"
EDITS = [("cran/download-package.go", """		if resp.StatusCode != 200 {
""", """		if resp.StatusCode >= 400 {
""")]
# --- demo ---
import http.server
w = World()
r = w.repo("R1", [("a", "1.0", {})])
state = dict(bad=True)


class H(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        f = w.root / "repos" / self.path.lstrip("/")
        if self.path.endswith(".gz") and state["bad"]:
            code, b = 300, b"<html>choose a mirror</html>"
        elif f.is_file():
            code, b = 200, f.read_bytes()
        else:
            code, b = 404, b"no"
        self.send_response(code)
        self.send_header("Content-Length", str(len(b)))
        self.end_headers()
        self.wfile.write(b)

    def log_message(self, *a):
        pass


s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
threading.Thread(target=s.serve_forever, daemon=True).start()
w.config(f"Threads: 1\nPackages:\n  - a\nRepos:\n  - R1: http://127.0.0.1:{s.server_port}/R1\n")
w.run("install")
expect("a" not in w.versions(), "installed from a bad answer")
state["bad"] = False
w.run("install")
expect(w.versions() == dict(a="1.0"), "not installed with the healthy server: %s" % w.versions())
