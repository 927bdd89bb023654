"""Servers that show valid and invalid certificates, or none (Secure)."""
import http.server, socketserver, ssl, threading
from common import *
from scen import *

CERTDIR = None
_lock = threading.Lock()


def certs(ctx):
    """Certificates, made anew (they expire)."""
    d = Path(tempfile.mkdtemp(prefix="pkgrverif-certs-"))
    exe = d / "certs"
    r = subprocess.run(["go", "build", "-buildvcs=false", "-o", str(exe), "."], cwd=VERIF / "harness/certs", env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode == 0:
        r = subprocess.run([str(exe), str(d / "c")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise HarnessError("certificates: " + r.stdout)
    exe.unlink()
    return d


class Listener:
    """One server: kind says what it shows at present; where says where it redirects to, if anywhere."""
    def __init__(self, contexts, tls, root, note):
        self.kind, self.where, outer = None, None, self

        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.0"

            def log_message(self, *a):
                pass

            def do_GET(self):
                note(outer, self.path)
                if outer.where:
                    self.send_response(302)
                    self.send_header("Location", outer.where + self.path)
                    self.send_header("Content-Length", "0")
                    self.end_headers()
                    return
                f = root / self.path.lstrip("/")
                if not f.is_file():
                    self.send_error(404)
                    return
                b = f.read_bytes()
                self.send_response(200)
                self.send_header("Content-Length", str(len(b)))
                self.end_headers()
                self.wfile.write(b)

        class S(socketserver.ThreadingMixIn, http.server.HTTPServer):
            daemon_threads = True
            request_queue_size = 64

            def finish_request(self, request, addr):
                request.settimeout(60)
                try:
                    if tls:
                        request = contexts[outer.kind].wrap_socket(request, server_side=True)
                    H(request, addr, self)
                except OSError:
                    pass     # a client that does not accept the certificate

            def shutdown_request(self, request):
                try:
                    super().shutdown_request(request)
                except OSError:
                    pass

            def handle_error(self, *a):
                pass
        self.srv = S(("127.0.0.1", 0), H)
        self.url = f"{'https' if tls else 'http'}://127.0.0.1:{self.srv.server_address[1]}"
        threading.Thread(target=self.srv.serve_forever, kwargs=dict(poll_interval=0.05), daemon=True).start()

    def close(self):
        self.srv.shutdown()
        self.srv.server_close()


def history(ctx, d, contexts, s):
    w = ctx.world()
    L = []
    reqs = []
    def note(l, path):
        base = os.path.basename(path)
        with _lock:
            reqs.append(dict(repo=l.repo, hop=l.hop, what="db" if base.startswith("PACKAGES") else "pkg"))
    try:
        repos = []
        for i, sch in enumerate(s["schemes"], 1):
            rec = dict(pkg=f"pa{i}", ver="1.0", dep=[], imp=[], lnk=[], sug=[])
            mpn = h(s["key"], i) % 3 == 0
            r = dict(name=f"R{i}", oid=f"O{i}", boid=f"B{i}", src=[rec], bin=[rec] if mpn else [], rtype="MPN" if mpn else "")
            w.publish(r)
            pair = {}
            for hop in ("front", "back"):
                if sch[hop]:
                    l = Listener(contexts, sch[hop] == "tls", w.root / "repos", note)
                    l.repo, l.hop = i, hop
                    pair[hop] = l
                    L.append(l)
            if "back" in pair:
                pair["front"].where = pair["back"].url
            r["url"] = f"{pair['front'].url}/R{i}"
            if h(s["key"], i, "n") % 3 == 0:
                r["url"] = r["url"].replace("127.0.0.1", "localhost")
            repos.append((r, pair))
        w.set_policy(pkgs={})
        lines, text = [dict(e="begin")], []
        for j, q in enumerate(s["runs"]):
            for (r, pair), k in zip(repos, q["kinds"]):
                for hop in pair:
                    pair[hop].kind = k[hop]
            # what a failed run has remembered is not looked at here
            q = dict(q, forget=q["forget"] or (j > 0 and lines[-1]["o"]["outcome"] != "ok"))
            if q["forget"]:
                shutil.rmtree(w.root / "xdg", ignore_errors=True)
            if q["empty"]:
                shutil.rmtree(w.cache, ignore_errors=True)
            w.write_config(dict(repos=[r for r, _ in repos], packages=[f"pa{i}" for i in range(1, len(repos) + 1)], threads=2))
            if q["file"]:
                with open(w.proj / "pkgr.yml", "a") as f:
                    f.write(f"NoSecure: {'true' if q['file'] == 'on' else 'false'}\n")
            w.env_extra = dict(SSL_CERT_FILE=str(d / ("c/ca.pem" if q["trusted"] else "c/idle.pem")), SSL_CERT_DIR=str(d / "none"))
            args = [q["cmd"]] + ([] if q["flag"] == "" else ["--no-secure"] if q["flag"] == "on" else ["--no-secure=false"])
            reqs.clear()
            res = w.run(args)
            if res.outcome == "hang":
                ctx.hangs += 1
            n = len(repos) + 1
            o = dict(outcome=res.outcome, reqs=[json.loads(y) for y in sorted({json.dumps(x, sort_keys=True) for x in list(reqs)})],
                     lib=[i for i in range(1, n) if (w.lib / f"pa{i}/DESCRIPTION").exists()],
                     cached=sorted({int(f.name[2]) for f in w.cache.rglob("pa*") if f.is_file() and re.match(r"pa\d_", f.name)} if w.cache.exists() else []))
            lines.append(dict(e="run", q=q, o=o))
            text.append(res.text[-700:])
        return lines, text
    finally:
        for l in L:
            l.close()
        w.close()


def secure_runs(ctx, n):
    S = tlc.generate("GenSecure", "ProfSecure", n, ctx.seed)
    for ix, x in enumerate(S):
        x["key"] = f"secure/{ctx.seed}/{ix}"
    d = certs(ctx)
    try:
        contexts = {}
        for k in ("good", "wrong", "expired", "future", "self", "stranger"):
            contexts[k] = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
            contexts[k].load_cert_chain(str(d / f"c/{k}.pem"))
        R = ctx.pool(S, lambda ix, x: history(ctx, d, contexts, x), what="servers")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.validate("secure", "TraceSecure", [(f"secure.{ix}", R[ix][0], dict(kind="secure", scenario=S[ix], text=R[ix][1])) for ix in sorted(R)])
