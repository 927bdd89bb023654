"""Drives the real pkgr binary in scratch worlds and records what it does.

A world is a directory: repositories (file paths or served over loopback HTTP), a fake R,
a library, caches, a configuration file.  Everything pkgr can reach through its
environment (HOME, XDG_CACHE_HOME, TMPDIR) lies inside that directory.
"""
import fcntl, hashlib, io, json, os, shutil, signal, subprocess, sys, tarfile, tempfile, threading, time, gzip
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
BUILD = Path(os.environ.get("VERIF_BUILD", VERIF / "build"))


class HarnessError(Exception):
    """The machinery failed; no verdict."""


# ------------------------------------------------------------------ building
def go_env():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOTELEMETRY="off",
             GOWORK="off", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", LANG="C.UTF-8",
             LC_ALL="C.UTF-8", TZ="UTC",
             PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", ""))
    return e


def build():
    """Builds pkgr from the working tree of /repo, and the fake R."""
    BUILD.mkdir(exist_ok=True, parents=True)
    with open(BUILD / ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for out, cwd, pkg in ((BUILD / "faker", VERIF / "harness/faker", "."), (BUILD / "pkgr", REPO, "./cmd/pkgr")):
            r = subprocess.run(["go", "build", "-buildvcs=false", "-o", str(out), pkg], cwd=cwd, env=go_env(),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise HarnessError(f"build of {pkg} in {cwd} failed:\n{r.stdout}")
        src = VERIF / "harness/crash/crash.c"
        r = subprocess.run(["gcc", "-O2", "-o", str(BUILD / "crash"), str(src)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise HarnessError(f"build of {src} failed:\n{r.stdout}")
    return BUILD / "pkgr"


# ------------------------------------------------------------------ small helpers
def os_release():
    d = {}
    for l in open("/etc/os-release"):
        k, _, v = l.strip().partition("=")
        d[k] = v.strip('"')
    return d


def linux_bin_uri():
    o = os_release()
    i = o.get("ID", "")
    if i == "ubuntu":
        return f"ubuntu/{o.get('VERSION_CODENAME', '')}"
    if i in ("centos", "rhel"):
        return f"centos/{o.get('VERSION_ID', ' ')[0]}"
    return f"{i}/{o.get('VERSION_ID', '')}"


def tar_gz(files, level=1):
    """files: list of (name, bytes) or (TarInfo, bytes)."""
    b = io.BytesIO()
    with gzip.GzipFile(fileobj=b, mode="wb", mtime=0, compresslevel=level) as g:
        with tarfile.open(fileobj=g, mode="w", format=tarfile.USTAR_FORMAT) as t:
            for n, c in files:
                ti = n if isinstance(n, tarfile.TarInfo) else tarfile.TarInfo(n)
                if c is not None:
                    ti.size = len(c)
                t.addfile(ti, io.BytesIO(c) if c is not None else None)
    return b.getvalue()


def parse_dcf(text):
    d, order, last = {}, [], None
    for l in text.split("\n"):
        if l[:1] in (" ", "\t") and last:
            d[last] += " " + l.strip()
            continue
        k, s, v = l.partition(":")
        if s:
            last = k
            order.append(k)
            d[k] = v.strip()
    return d, order


def _stable(s):
    return int(hashlib.md5(s.encode()).hexdigest()[:8], 16)


def dep_field(owner, kind, names, extra=()):
    """A dependency field; versions and layout vary, deterministically."""
    items = list(extra)
    for n in names:
        h = _stable(f"{owner}/{kind}/{n}")
        items.append(n + ["", " (>= 0.1)", " (>= 0.0.1-2)", "", "", "(>= 0.1)", " (>=0.1)", "", " (!= 99.1)", " (> 0.0)", " (< 99)", " (<= 99.0)"][h % 12])
    h = _stable(f"{owner}/{kind}")
    if h % 3 == 0:
        return ",\n    ".join(items)
    if h % 3 == 1:
        return ", ".join(items)
    return ",".join(items)


def desc_lines(rec, marker=None, extra=(), rver=None):
    """DESCRIPTION / PACKAGES text of a record."""
    L = [f"Package: {rec['pkg']}", f"Version: {rec['ver']}"]
    if rec.get("priority"):
        L.append(f"Priority: {rec['priority']}")
    rc = rec.get("rc", {"op": "none"})
    r = []
    if rc["op"] == "bare":
        r = ["R"]
    elif rc["op"] != "none":
        h = _stable(f"{rec['pkg']}/{rec['ver']}/R")
        r = [["R ({} {})", "R ({} {})", "R ({}{})", "R({} {})", "R ({}  {} )"][h % 5].format(rc["op"], rc["str"])]
    key = rec["pkg"] + rec["ver"]
    if r or rec.get("dep"):
        L.append("Depends: " + dep_field(key, "dep", rec.get("dep", []), r))
    for f, k in (("Imports", "imp"), ("LinkingTo", "lnk"), ("Suggests", "sug")):
        if rec.get(k):
            L.append(f"{f}: " + dep_field(key, k, rec[k]))
    L.append("License: GPL-3")
    L.append("NeedsCompilation: " + ("yes" if _stable(key) % 2 else "no"))
    if rec.get("path"):
        L.append(f"Path: {rec['path']}")
    if marker:
        L.append(f"Marker: {marker}")
    L.extend(extra)
    return "\n".join(L) + "\n"


# ------------------------------------------------------------------ the world
class World:
    def __init__(self, base=None, http=None):
        self.root = Path(tempfile.mkdtemp(prefix="pkgrverif-", dir=base))
        self.http = http
        for d in ("rbin", "home", "xdg", "tmp", "proj", "repos"):
            (self.root / d).mkdir()
        shutil.copyfile(BUILD / "faker", self.root / "rbin/R")
        os.chmod(self.root / "rbin/R", 0o755)
        os.symlink("R", self.root / "rbin/Rscript")
        self.proj = self.root / "proj"
        self.lib = self.proj / "lib"
        self.cache = self.root / "cache"
        self.policy = {}
        self.rver = [4, 1, 2]
        self.env_extra = {}
        self.files_of = {}  # marker -> files the package has besides its DESCRIPTION, where known
        if http:
            http.register(self)

    def close(self):
        if self.http:
            self.http.unregister(self)
        for p in [self.root]:
            shutil.rmtree(p, ignore_errors=True)

    # ---- repositories
    def repo_url(self, repo):
        if "url" in repo:
            return repo["url"]
        loc = repo.get("loc", repo["name"])
        if repo.get("kind") == "http":
            return f"http://127.0.0.1:{self.http.port}/{self.root.name}/{loc}" + repo.get("slash", "")
        return str(self.root / "repos" / loc) + repo.get("slash", "")

    def marker(self, repo, t, rec):
        oid = repo.get("oid", repo["name"])
        return f"{oid if t == 'source' else repo.get('boid', oid)}/{'src' if t == 'source' else 'bin'}/{rec['pkg']}_{rec['ver']}"

    def publish(self, repo, rver=None):
        """Writes a repository's current content."""
        loc = repo.get("loc", repo["name"])
        d = self.root / "repos" / loc
        if d.exists():
            shutil.rmtree(d)
        rv = rver or self.rver
        sets = [("source", d / "src/contrib", repo.get("src", []))]
        sets = [(*x, rv, repo) for x in sets]
        for suf in repo.get("suffixes", [repo.get("suffix", "")]) if repo.get("rtype") == "MPN" else []:
            b = d / "bin/linux" / linux_bin_uri()
            if suf:
                b = b / suf
            as_ = dict(repo, boid=repo["oid"] + suf) if "suffixes" in repo else repo
            for v in repo.get("rvers", [rv]):
                sets.append(("binary", b / "contrib" / f"{v[0]}.{v[1]}", repo.get("bin", []), v, as_))
        for t, pd, recs, rv, as_ in sets:
            pd.mkdir(parents=True)
            txt = []
            for rec in recs:
                m = self.marker(as_, t, rec)
                txt.append(desc_lines(rec))
                if t == "source":
                    fn = f"{rec['pkg']}_{rec['ver']}.tar.gz"
                    extra = rec.get("descextra", [])
                else:
                    fn = f"{rec['pkg']}_{rec['ver']}_R_x86_64-pc-linux-gnu.tar.gz"
                    extra = rec.get("descextra", []) + [f"Built: R {'.'.join(map(str, rv))}; ; prebuilt; unix"]
                n = rec["pkg"]
                data = tar_gz([(f"{n}/DESCRIPTION", desc_lines(rec, m, extra).encode()),
                               (f"{n}/R/code.R", f"# {m}\n".encode()),
                               (f"{n}/inst/pad", pad(m))])
                (pd / fn).write_bytes(data)
            (pd / "PACKAGES").write_text("\n".join(txt))

    # ---- library
    def put_package(self, name, ver, marker, dirname=None, extra=(), lib=None):
        d = (lib or self.lib) / (dirname or name)
        (d / "R").mkdir(parents=True, exist_ok=True)
        rec = {"pkg": name, "ver": ver}
        (d / "DESCRIPTION").write_text(desc_lines(rec, marker, ["Built: R 4.1.2; ; pre; unix"] + list(extra)))
        (d / "R" / "code.R").write_text(f"# {marker}\n")

    def snapshot(self, d):
        """Map entry -> digest of every file below."""
        res = {}
        d = Path(d)
        if not d.exists():
            return res
        for e in sorted(os.listdir(d)):
            res[e] = tree_digest(d / e)
        return res

    def lib_entries(self, lib=None):
        lib = lib or self.lib
        ents = []
        if not lib.is_dir():
            return ents
        for e in sorted(os.listdir(lib)):
            p = lib / e
            ent = {"dir": e, "kind": "other", "pkg": "-", "ver": "-", "marker": "-", "hash": tree_digest(p)}
            f = p / "DESCRIPTION"
            if f.is_file():
                d, _ = parse_dcf(f.read_text(errors="replace"))
                ent.update(kind="pkg", pkg=d.get("Package", "-"), ver=d.get("Version", "-"), marker=genuine(p, d.get("Marker", "-"), self.files_of))
            ents.append(ent)
        return ents

    # ---- the world's state (library, caches, temporary files) as a whole
    def save(self):
        d = Path(tempfile.mkdtemp(prefix="pkgrverif-save-"))
        for n in ("proj", "xdg", "cache", "tmp"):
            if (self.root / n).exists():
                shutil.copytree(self.root / n, d / n, symlinks=True)
        return d

    def restore(self, d):
        for n in ("proj", "xdg", "cache", "tmp"):
            shutil.rmtree(self.root / n, ignore_errors=True)
            if (d / n).exists():
                shutil.copytree(d / n, self.root / n, symlinks=True)

    def crash(self, args, at, mode="kill", **kw):
        """Runs pkgr with an end or a fault at its at-th change of the file system; (result, changes made)."""
        log = self.root.parent / (self.root.name + ".crash")
        try:
            res = self.run(args, prefix=(str(BUILD / "crash"), "-o", str(log), "-n", str(at), "-m", mode, "-p", str(self.root) + "/",
                                         "-x", str(self.root / "out.txt"), "--"), **kw)
            L = log.read_text(errors="replace").strip().split("\n")
        finally:
            if log.exists():
                log.unlink()
        if not L or not L[-1].startswith("total "):
            raise HarnessError("the crash tracer left no log: " + res.text[-500:])
        return res, int(L[-1].split()[1]), L[:-1]

    # ---- configuration
    def config_text(self, c):
        q = json.dumps
        # types are written in any case
        def spell(v, what):
            k = int(hashlib.md5(f"{c['spell']}/{what}".encode()).hexdigest()[:6], 16) % 6 if "spell" in c else 0
            return {4: v.swapcase(), 5: v.capitalize()}.get(k, v)
        L = ["Version: 1"]
        def lst(k, xs):
            if xs:
                L.append(f"{k}:")
                L.extend(f"  - {q(x)}" for x in xs)
        lst("Packages", c.get("packages", []))
        lst("IgnorePackages", c.get("ignore", []))
        L.append("Repos:")
        for r in c["repos"]:
            L.append(f"  - {r['name']}: {q(self.repo_url(r))}")
        if c.get("library") is not None:
            if c["library"] != "":
                L.append(f"Library: {q(c['library'])}")
        else:
            L.append(f"Library: {q(str(self.lib))}")
        if c.get("cache", True) is True:
            L.append(f"Cache: {q(str(self.cache))}")
        elif c.get("cache"):
            L.append(f"Cache: {q(c['cache'])}")
        L.append(f"RPath: {q(c.get('rpath', str(self.root / 'rbin/R')))}")
        for k, f in (("suggests", "Suggests"), ("norec", "NoRecommended"), ("norollback", "NoRollback"),
                     ("strict", "Strict"), ("noupdate", "NoUpdate")):
            if c.get(k):
                L.append(f"{f}: true")
        if c.get("threads") is not None:
            L.append(f"Threads: {c['threads']}")
        lst("Tarballs", c.get("tarball_paths", []))
        lst("Descriptions", c.get("desc_paths", []))
        if c.get("lockfile"):
            L += ["Lockfile:", f"  Type: {c['lockfile']}"]
        if c.get("logging"):
            L.append("Logging:")
            for k, v in c["logging"].items():
                L.append(f"  {k}: {q(v)}")
        cp = c.get("cust", [])
        cr = [r for r in c["repos"] if r.get("rtype") or r.get("dtype") or r.get("suffix")]
        if cp or cr:
            L.append("Customizations:")
            if cp:
                L.append("  Packages:")
                for k in cp:
                    L.append(f"    - {k['pkg']}:")
                    n = len(L)
                    if k.get("repo"):
                        L.append(f"        Repo: {k['repo']}")
                    if k.get("type"):
                        L.append(f"        Type: {spell(k['type'], k['pkg'])}")
                    if k.get("sug"):
                        L.append(f"        Suggests: {k['sug']}")
                    if k.get("env"):
                        L.append("        Env:")
                        for a, b in k["env"].items():
                            L.append(f"          {a}: {q(b)}")
                    if len(L) == n:
                        L.append("        Repo: \"\"" if False else "        Env: {}")
            if cr:
                L.append("  Repos:")
                for r in cr:
                    L.append(f"    - {r['name']}:")
                    if r.get("rtype"):
                        L.append(f"        RepoType: {spell(r['rtype'], r['name'])}")
                    if r.get("dtype"):
                        L.append(f"        Type: {spell(r['dtype'], r['name'])}")
                    if r.get("suffix"):
                        L.append(f"        RepoSuffix: {r['suffix']}")
        return "\n".join(L) + "\n"

    def write_config(self, c, name="pkgr.yml"):
        (self.proj / name).write_text(self.config_text(c))

    # ---- running
    def set_policy(self, **kw):
        self.policy = dict(kw)
        p = dict(rversion=".".join(map(str, self.rver)), lib=str(self.lib))
        p.update(kw)
        (self.root / "rbin/policy.json").write_text(json.dumps(p))

    def events(self):
        f = self.root / "rbin/events.ndjson"
        if not f.exists():
            return []
        evs = []
        for l in f.read_text(errors="replace").split("\n"):
            if l.strip():
                try:
                    evs.append(json.loads(l))
                except json.JSONDecodeError:
                    pass  # an R call killed while writing its line
        return evs

    def env(self):
        e = dict(HOME=str(self.root / "home"), XDG_CACHE_HOME=str(self.root / "xdg"), TMPDIR=str(self.root / "tmp"),
                 PATH="/usr/local/bin:/usr/bin:/bin", LANG="C.UTF-8", LC_ALL="C.UTF-8", TZ="UTC")
        e.update(self.env_extra)
        return e

    def run(self, args, timeout=240, config="pkgr.yml", cwd=None, log=("--loglevel=debug", "--logjson"), stdin=None,
            prefix=(), hang=30.0):
        ev = self.root / "rbin/events.ndjson"
        if ev.exists():
            ev.unlink()
        out = self.root / "out.txt"
        with open(out, "wb") as fo:
            p = subprocess.Popen([*prefix, str(BUILD / "pkgr"), "--config", str(self.proj / config) if config else "", *log, *args]
                                 if config else [*prefix, str(BUILD / "pkgr"), *log, *args],
                                 cwd=cwd or self.proj, env=self.env(), stdout=fo, stderr=subprocess.STDOUT,
                                 stdin=subprocess.DEVNULL, start_new_session=True)
            status = wait_or_hang(p, timeout, hang, ev, out)
        # survivors of a killed pkgr (its R children) end first
        reap_group(p.pid, kill=status != "exit")
        text = out.read_text(errors="replace")
        return Result(status, p.returncode, text, self.events())


def pad(marker):
    return (hashlib.sha256(marker.encode()).hexdigest() * 40).encode()


def genuine(p, marker, files_of={}):
    """The marker of an installed package's DESCRIPTION, if its other files agree with it."""
    c, q = p / "R/code.R", p / "inst/pad"
    if not c.is_file() or c.read_text(errors="replace") != f"# {marker}\n":
        return "mixed " + marker
    if q.exists() and q.read_bytes() != pad(marker):
        return "mixed " + marker
    if marker in files_of:
        got = {str(f.relative_to(p)): f.read_bytes() for f in p.rglob("*") if f.is_file() and f.name != "DESCRIPTION"}
        if got != files_of[marker]:
            return "incomplete " + marker
    return marker


class Result:
    def __init__(self, status, rc, text, events):
        self.status, self.rc, self.text, self.events = status, rc, text, events
        self.log = []
        for l in text.split("\n"):
            if l.startswith("{"):
                try:
                    self.log.append(json.loads(l))
                except json.JSONDecodeError:
                    pass

    @property
    def outcome(self):
        if self.status != "exit":
            return self.status
        if self.rc == 0:
            return "ok"
        return "killed" if self.rc in (-9, 137) else "err"

    def msgs(self, m):
        return [x for x in self.log if x.get("msg") == m]


def proc_cpu(pid):
    try:
        s = open(f"/proc/{pid}/stat").read()
        f = s[s.rindex(")") + 2:].split()
        return f[0], int(f[11]) + int(f[12])
    except (OSError, ValueError):
        return "X", 0


def group_pids(pgid):
    res = []
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                s = open(f"/proc/{d}/stat").read()
                f = s[s.rindex(")") + 2:].split()
                if int(f[2]) == pgid and f[0] != "Z":
                    res.append(int(d))
            except (OSError, ValueError):
                pass
    return res


def reap_group(pgid, kill):
    for i in range(4000):
        if kill:
            try:
                os.killpg(pgid, signal.SIGKILL)
            except ProcessLookupError:
                return
        if not group_pids(pgid):
            return
        time.sleep(0.005)


def wait_or_hang(p, timeout, hang, ev, out):
    """'exit'; 'hang' when pkgr sits idle, without R children and without output, for `hang` seconds,
    or keeps computing for 200 seconds of processor time without any of these;
    anything else over the time limit is the harness's problem."""
    t0 = time.time()
    last = seen = None
    since = t0
    spent = 0
    nap = 0.002
    while True:
        try:
            p.wait(nap)
            return "exit"
        except subprocess.TimeoutExpired:
            nap = min(nap * 1.5, 0.25)
        now = time.time()
        if now - t0 > 5:
            st, cpu = proc_cpu(p.pid)
            pids = group_pids(p.pid)
            sig = (cpu // 5, len(pids), out.stat().st_size, ev.stat().st_size if ev.exists() else 0)
            if sig[1:] != seen or len(pids) > 1:
                seen, spent = sig[1:], cpu
            elif cpu - spent > 200 * os.sysconf("SC_CLK_TCK"):
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                return "hang"
            if sig != last or len(pids) > 1:
                last, since = sig, now
            elif now - since > hang:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                return "hang"
        if now - t0 > timeout:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            raise HarnessError(f"time limit of {timeout}s exceeded while pkgr was still active")


def tree_digest(p):
    h = hashlib.sha1()
    p = Path(p)
    if p.is_symlink():
        h.update(b"L" + os.readlink(p).encode())
    elif p.is_file():
        h.update(b"F" + p.read_bytes())
    elif p.is_dir():
        h.update(b"D")
        for e in sorted(os.listdir(p)):
            h.update(e.encode() + b"\0" + tree_digest(p / e).encode())
    else:
        h.update(b"?")
    return h.hexdigest()[:16]


# ------------------------------------------------------------------ loopback repository server
class HttpServer:
    """Serves <root>/repos of registered worlds, with faults: world.faults maps a path
    (relative to the world) to a fault kind."""
    def __init__(self):
        import http.server
        outer = self
        self.worlds = {}

        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.0"

            def log_message(self, *a):
                pass

            def do_GET(self):
                parts = self.path.lstrip("/").split("/", 1)
                w = outer.worlds.get(parts[0])
                if w is None or len(parts) < 2:
                    self.send_error(404)
                    return
                rel = parts[1].split("?")[0]
                while "//" in rel:
                    rel = rel.replace("//", "/")
                w.requests.append(rel)
                f = w.root / "repos" / rel
                base = os.path.basename(rel)
                pkg = base.split("_")[0]
                fault = w.faults.get(rel) or w.faults.get(base) or w.faults.get("pkg:" + pkg) or \
                    w.faults.get(("bin:" if "/bin/" in rel else "src:") + pkg) or w.faults.pop("first:" + pkg, None) or \
                    (base == "PACKAGES" and w.faults.get("db:" + rel.split("/")[0]))
                if callable(fault):
                    fault = fault(rel)
                if fault:
                    w.faulted.append(rel)
                if fault in ("404", "403", "500", "503"):
                    self.page(int(fault))
                    return
                if fault == "redir404":
                    self.send_response(302)
                    self.send_header("Location", f"/{parts[0]}/nowhere/{base}")
                    self.send_header("Content-Length", "0")
                    self.end_headers()
                    return
                if not f.is_file():
                    self.send_error(404)
                    return
                data = f.read_bytes()
                w.served.append(rel)
                if fault in ("202", "206", "300"):
                    self.page(int(fault), data[: len(data) // 2] if fault == "206" else b"come back later " * 20)
                    return
                if fault == "204":
                    self.send_response(204)
                    self.end_headers()
                    return
                if fault == "reset":
                    self.connection.close()
                    return
                if fault == "chunkcut":
                    self.wfile.write(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n")
                    n = max(1, len(data) // 2)
                    self.wfile.write(b"%x\r\n" % n + data[:n] + b"\r\n")
                    self.wfile.flush()
                    self.connection.close()
                    return
                if fault == "hold":
                    w.hold.wait(20)
                self.send_response(200)
                self.send_header("Content-Length", str(len(data) + (500 if fault == "longer" else 0)))
                self.end_headers()
                if fault == "longer":
                    self.wfile.write(data)
                    self.wfile.flush()
                    self.connection.close()
                    return
                if fault == "short":
                    self.wfile.write(data[: len(data) // 2])
                    self.wfile.flush()
                    self.connection.close()
                    return
                if fault in ("none", "empty"):
                    self.connection.close()
                    return
                if fault == "kill":
                    self.wfile.write(data[: len(data) // 2])
                    self.wfile.flush()
                    w.reached.set()
                    w.hold.wait(20)
                    return
                self.wfile.write(data)
                if not fault:
                    w.wellserved.append(rel)

            def page(self, code, body=b"error page " * 20):
                self.send_response(code)
                self.send_header("Content-Length", str(len(body)))
                self.end_headers()
                self.wfile.write(body)

        class S(http.server.ThreadingHTTPServer):
            daemon_threads = True
            request_queue_size = 128

            def handle_error(self, *a):
                pass

        self.srv = S(("127.0.0.1", 0), H)
        self.port = self.srv.server_address[1]
        threading.Thread(target=self.srv.serve_forever, daemon=True).start()

    def register(self, w):
        w.faults, w.requests, w.faulted, w.served, w.wellserved, w.hold, w.reached = {}, [], [], [], [], threading.Event(), threading.Event()
        self.worlds[w.root.name] = w

    def unregister(self, w):
        w.hold.set()
        self.worlds.pop(w.root.name, None)

    def stop(self):
        self.srv.shutdown()
