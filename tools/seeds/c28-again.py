PROP = "C28"
NEEDS = "a package download that is refused for the server's certificate, after its database was remembered"
BREAKS = "the download is tried again without a look at the certificate"
EDITS = [("cran/download-package.go", """		resp, err := client.Get(pkgdl)
""", """		resp, err := get(client, pkgdl)
"""), ("cran/download-package.go", """// SourceType represents the type of package to download
""", """// get asks once more when the connection itself failed: some proxies present certificates of their own
func get(client *http.Client, url string) (*http.Response, error) {
	resp, err := client.Get(url)
	if err != nil {
		client.Transport = &http.Transport{TLSClientConfig: &tls.Config{InsecureSkipVerify: true}}
		resp, err = client.Get(url)
	}
	return resp, err
}

// SourceType represents the type of package to download
""")]
# --- demo ---
import http.server, ssl
w = World()
r = w.repo("R1", [("a", "1.0", {})])
subprocess.run(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-days", "30", "-subj", "/CN=nobody", "-addext", "subjectAltName=IP:127.0.0.1,DNS:localhost",
                "-keyout", str(w.root / "k.pem"), "-out", str(w.root / "c.pem")], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
ctx.load_cert_chain(str(w.root / "c.pem"), str(w.root / "k.pem"))
asked = []


class H(http.server.SimpleHTTPRequestHandler):
    def __init__(self, *a):
        super().__init__(*a, directory=str(w.root / "repos"))

    def log_message(self, *a):
        pass

    def do_GET(self):
        asked.append(self.path)
        super().do_GET()


class S(http.server.ThreadingHTTPServer):
    daemon_threads = True

    def handle_error(self, *a):
        pass

    def finish_request(self, request, addr):
        H(ctx.wrap_socket(request, server_side=True), addr, self)


s = S(("127.0.0.1", 0), H)
threading.Thread(target=s.serve_forever, daemon=True).start()
w.policy()
w.config(f"Threads: 1\nPackages:\n  - a\nRepos:\n  - R1: https://127.0.0.1:{s.server_address[1]}/R1\n")
w.run("plan", "--no-secure")
asked.clear()
w.run("install")
expect(not asked and not w.versions(), "asked for %s, installed %s" % (asked, w.versions()))
