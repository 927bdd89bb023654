"""Scratch worlds for the demonstrations: pkgr built from the working directory, a stand-in for R,
local repositories.  Everything lies in a scratch directory that is removed at exit."""
import atexit, gzip, io, json, os, resource, shutil, subprocess, sys, tarfile, tempfile, threading, time
from pathlib import Path

REPO = Path.cwd()
TOP = Path(tempfile.mkdtemp(prefix="pkgrdemo-"))
atexit.register(lambda: shutil.rmtree(TOP, ignore_errors=True))

FAKER = r'''#!/usr/bin/python3 -I
import sys, os, json, time, tarfile, io, shutil, fcntl
D = os.path.dirname(os.path.abspath(sys.argv[0]))
P = json.load(open(D + "/policy.json"))
def emit(**k):
    with open(D + "/events", "a") as f:
        fcntl.flock(f, fcntl.LOCK_EX); k["t"] = time.time(); f.write(json.dumps(k) + "\n"); f.flush()
a = sys.argv[1:]
if a == ["--version"]:
    print('R version %s (2021-11-01) -- "Fake"\nCopyright\nPlatform: x86_64-pc-linux-gnu (64-bit)' % P.get("rversion", "4.1.2")); sys.exit(0)
if "-e" in a:
    e = a[a.index("-e") + 1]
    n = e.split("'")[1] if "'" in e else ""
    p = P["pkgs"].get(n, {})
    if e.startswith("library("):
        emit(ev="LS", pkg=n); time.sleep(p.get("ld", 0)); emit(ev="LE", pkg=n)
        sys.stdout.write(p.get("out", "")); sys.stderr.write(p.get("err", "")); sys.exit(p.get("lf", 0))
    if e.startswith("find.package("):
        emit(ev="NS", pkg=n); time.sleep(p.get("nd", 0)); emit(ev="NE", pkg=n)
        if n in P.get("installed", {}):
            print('[1] "/lib/%s"\n[1] "%s"' % (n, P["installed"][n])); sys.exit(0)
        sys.exit(1)
    if e.startswith(".libPaths"):
        print('[1] "/lib"'); sys.exit(0)
    sys.exit(1)
if a == ["--vanilla"]:
    emit(ev="RUN", env=dict(os.environ)); sys.exit(0)
lib = [x for x in a if x.startswith("--library=")][0][10:]
path = a[-1]
build = "--build" in a
files = {}
try:
    if os.path.isdir(path):
        for r, ds, fs in os.walk(path):
            for f in fs:
                q = os.path.join(r, f); files[os.path.relpath(q, path)] = open(q, "rb").read()
    else:
        with tarfile.open(path) as t:
            for m in t:
                if m.isfile(): files[m.name.split("/", 1)[1]] = t.extractfile(m).read()
except Exception as ex:
    emit(ev="BAD", path=path, why=str(ex)); print("ERROR: cannot read", path, file=sys.stderr); sys.exit(1)
desc = files["DESCRIPTION"].decode()
d = dict(l.split(": ", 1) for l in desc.splitlines() if ": " in l and not l.startswith(" "))
n, v = d["Package"], d["Version"]
k = "B" if build and lib == os.getcwd() else "T" if os.path.isdir(path) else "I"
p = P["pkgs"].get(n, {})
emit(ev=k + "S", pkg=n, ver=v, path=path, lib=lib, env=dict(os.environ), have=sorted(os.listdir(P["lib"])) if os.path.isdir(P["lib"]) else [], built=d.get("Built", ""))
if "out" in p: print(p["out"])
for x in P.get("echo", []): print(x + "=" + os.environ.get(x, ""))
time.sleep(p.get("bd" if k == "B" else "id", 0))
rc = p.get("bf" if k == "B" else "if", 0)
if rc:
    emit(ev=k + "E", pkg=n, rc=rc); print("ERROR: failed", file=sys.stderr); sys.exit(rc)
if "Built" not in d: desc = desc.rstrip("\n") + "\nBuilt: R %s; ; fake; unix\n" % P.get("rversion", "4.1.2")
files["DESCRIPTION"] = desc.encode()
shutil.rmtree(os.path.join(lib, n), ignore_errors=True)
for f, b in files.items():
    q = os.path.join(lib, n, f); os.makedirs(os.path.dirname(q), exist_ok=True); open(q, "wb").write(b)
if build and not p.get("nobin"):
    with tarfile.open("%s_%s_R_x86_64-pc-linux-gnu.tar.gz" % (n, v), "w:gz") as t:
        for f, b in files.items():
            ti = tarfile.TarInfo(n + "/" + f); ti.size = len(b); t.addfile(ti, io.BytesIO(b))
emit(ev=k + "E", pkg=n, rc=0)
'''


def build():
    e = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOTELEMETRY="off", GOWORK="off",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", PATH="/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + os.environ.get("PATH", ""))
    r = subprocess.run(["go", "build", "-buildvcs=false", "-o", str(TOP / "pkgr"), "./cmd/pkgr"], cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout)
        sys.exit(3)


def fields(pkg, ver, **k):
    return f"Package: {pkg}\nVersion: {ver}\n" + "".join(f"{a}: {b}\n" for a, b in k.items())


def tgz(pkg, ver, pad="", **k):
    b = io.BytesIO()
    with gzip.GzipFile(fileobj=b, mode="wb", mtime=0) as g, tarfile.open(fileobj=g, mode="w") as t:
        for n, c in (("DESCRIPTION", fields(pkg, ver, **k)), ("R/code.R", f"# {pkg} {ver} {pad}\n")):
            ti = tarfile.TarInfo(f"{pkg}/{n}")
            ti.size = len(c)
            t.addfile(ti, io.BytesIO(c.encode()))
    return b.getvalue()


class World:
    def __init__(self):
        self.root = Path(tempfile.mkdtemp(prefix="w", dir=TOP))
        for d in ("rbin", "home", "xdg", "tmp", "proj", "repos"):
            (self.root / d).mkdir()
        self.proj, self.lib, self.cache = self.root / "proj", self.root / "proj/lib", self.root / "cache"
        (self.root / "rbin/R").write_text(FAKER)
        os.chmod(self.root / "rbin/R", 0o755)
        self.policy()

    def policy(self, pkgs=None, **k):
        (self.root / "rbin/policy.json").write_text(json.dumps(dict(pkgs=pkgs or {}, lib=str(self.lib), **k)))

    def repo(self, name, recs, sub="src/contrib", suffix="tar.gz"):
        """recs: [(pkg, version, fields)]"""
        d = self.root / "repos" / name / sub
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir(parents=True)
        for p, v, k in recs:
            (d / f"{p}_{v}.{suffix}").write_bytes(tgz(p, v, Origin=f"{name}-{sub.split('/')[0]}", **k))
        (d / "PACKAGES").write_text("\n".join(fields(p, v, **k) for p, v, k in recs))
        return str(self.root / "repos" / name)

    def put(self, pkg, ver, **k):
        (self.lib / pkg / "R").mkdir(parents=True, exist_ok=True)
        (self.lib / pkg / "DESCRIPTION").write_text(fields(pkg, ver, Built="R 4.1.2", **k))
        (self.lib / pkg / "R/code.R").write_text(f"# old {pkg}\n")

    def config(self, text, name="pkgr.yml"):
        """LIB, CACHE, R and RP(x) are filled in."""
        text = f"Version: 1\nLibrary: {self.lib}\nCache: {self.cache}\nRPath: {self.root}/rbin/R\n" + text
        (self.proj / name).write_text(text)

    def run(self, *args, env=None, timeout=120, config="pkgr.yml", cwd=None, log=("--loglevel=debug", "--logjson"), fsize=None):
        """fsize: no file may grow beyond this, as on a full disk."""
        (self.root / "rbin/events").unlink(missing_ok=True)
        e = dict(HOME=str(self.root / "home"), XDG_CACHE_HOME=str(self.root / "xdg"), TMPDIR=str(self.root / "tmp"), PATH="/usr/local/bin:/usr/bin:/bin", LANG="C.UTF-8")
        e.update(env or {})
        try:
            r = subprocess.run([str(TOP / "pkgr"), *(["--config", str(self.proj / config)] if config else []), *log, *args], cwd=cwd or self.proj, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace", timeout=timeout, stdin=subprocess.DEVNULL,
                               preexec_fn=(lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))) if fsize is not None else None)
        except subprocess.TimeoutExpired:
            fail("pkgr does not come to an end")
        self.out, self.rc = r.stdout, r.returncode
        f = self.root / "rbin/events"
        self.events = [json.loads(l) for l in f.read_text().split("\n") if l] if f.exists() else []
        self.log = []
        for l in self.out.split("\n"):
            if l.startswith("{"):
                try:
                    self.log.append(json.loads(l))
                except ValueError:
                    pass
        return r

    def ev(self, kind):
        return [e["pkg"] for e in self.events if e["ev"] == kind]

    def installed(self):
        res = {}
        for d in sorted(os.listdir(self.lib)) if self.lib.is_dir() else []:
            f = self.lib / d / "DESCRIPTION"
            res[d] = dict(l.split(": ", 1) for l in f.read_text().splitlines() if ": " in l) if f.exists() else None
        return res

    def versions(self):
        return {d: (x or {}).get("Version") for d, x in self.installed().items()}


def fail(why):
    print("DEMO FAILED:", why)
    sys.exit(1)


def expect(cond, why):
    if not cond:
        fail(why)
