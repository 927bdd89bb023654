"""Package databases remembered between runs (Db)."""
from common import *
from scen import *
from s_hist import http

MINORS = ("4.1", "4.2")
SUFFIXES = ("", "s1", "2")


def packages_of(loc, typ, c, minor="", suffix=""):
    """The records of a location's database with content c: the package of that location and type, whose
    version says which content, R version and suffix it belongs to."""
    n = f"{typ}{loc}"
    if typ == "src":
        # two records with complementary requirements on R
        return f"Package: {n}\nVersion: {c}.1\nDepends: R (< 4.1.3)\n\nPackage: {n}\nVersion: {c}.2\nDepends: R (>= 4.1.3)\n"
    return f"Package: {n}\nVersion: {c}.{minor.replace('.', '')}.{SUFFIXES.index(suffix)}\n"


class DbWorld:
    def __init__(self, w, kinds):
        self.w, self.kinds, self.content = w, kinds, {}
        d = w.root / "repos/hub/src/contrib"
        d.mkdir(parents=True)
        (d / "PACKAGES").write_text("Package: hub\nVersion: 1.0\nImports: " + ", ".join(f"{t}{l}" for l in kinds for t in ("src", "bin")) + "\n")

    def files(self, loc, typ):
        base = self.w.root / "repos" / loc
        if typ == "src":
            yield base / "src/contrib/PACKAGES", {}
        else:
            for m in MINORS:
                for s in SUFFIXES:
                    b = base / "bin/linux" / linux_bin_uri()
                    yield (b / s if s else b) / "contrib" / m / "PACKAGES", dict(minor=m, suffix=s)

    def publish(self, loc, src, bin):
        w = self.w
        if w.root.joinpath("repos", loc).exists():
            shutil.rmtree(w.root / "repos" / loc)
        for typ, c in (("src", src), ("bin", bin)):
            for f, kw in self.files(loc, typ):
                rel = str(f.relative_to(w.root / "repos"))
                w.faults.pop(rel, None)
                if c == 0:
                    continue
                f.parent.mkdir(parents=True)
                if c == -1 and self.kinds[loc] == "file":
                    f.mkdir()
                    continue
                f.write_text(packages_of(loc, typ, max(c, 1), **kw))
                if c == -1:
                    w.faults[rel] = ("503", "500", "reset", "short", "403", "202", "206")[h(rel, len(w.requests)) % 7]

    def conf(self, entries):
        """(configuration, what the specification is told)"""
        repos, told = [], []
        for x in entries:
            r = dict(name=x["name"], loc=x["loc"], slash=x["slash"], kind=self.kinds[x["loc"]], suffix=x["suffix"], rtype=x["rtype"], dtype=x["dtype"])
            repos.append(r)
            told.append(dict(name=x["name"], addr=x["loc"] + x["slash"], loc=x["loc"], suffix=x["suffix"], rtype=x["rtype"]))
        repos.append(dict(name="HUB", loc="hub"))
        told.append(dict(name="HUB", addr="hub", loc="hub", suffix="", rtype=""))
        cust = [dict(pkg=f"{t}{l}", type="source" if t == "src" else "binary") for l in self.kinds for t in ("src", "bin")]
        return dict(repos=repos, packages=["hub"], cust=cust), told

    def sel(self, res):
        """What a plan run reported, in the terms of the specification; None when it makes no sense."""
        out = []
        for m in res.msgs("package repository set"):
            p, v = m.get("pkg"), m.get("version", "")
            typ = {1: "source", 2: "binary"}.get(m.get("type"), str(m.get("type")).lower())
            if p == "hub":
                out.append(dict(loc="hub", type="src", repo=m["repo"], content=1, suffix=""))
                continue
            f = v.split(".")
            ok = (len(f) == 2 and p.startswith("src") and typ == "source" and f[1] == ("1" if self.w.rver < [4, 1, 3] else "2")) or \
                 (len(f) == 3 and p.startswith("bin") and typ == "binary" and f[1] == f"{self.w.rver[0]}{self.w.rver[1]}")
            out.append(dict(loc=p[3:], type=p[:3], repo=m.get("repo", ""), content=int(f[0]) if ok and f[0].isdigit() else -9,
                            suffix=SUFFIXES[int(f[2])] if ok and len(f) == 3 else ""))
        return out

    @property
    def dir(self):
        return self.w.root / "xdg/pkgr/r_packagedb_caches"

    def listing(self):
        # a run that ends in the middle of writing leaves an unfinished file under another name
        return {p.name: tree_digest(p) for p in self.dir.iterdir() if not p.name.startswith(".")} if self.dir.is_dir() else {}


def set_rver(w, rver):
    w.rver = list(rver)
    w.set_policy()


def db_history(ctx, rid, s):
    w = ctx.world(http=http())
    try:
        d = DbWorld(w, s["kinds"])
        lines = [dict(e="world", live=[dict(loc=l, src=1, bin=1) for l in s["kinds"]] + [dict(loc="hub", src=1, bin=0)])]
        for l in s["kinds"]:
            d.publish(l, 1, 1)
        n = 1
        for x in s["steps"]:
            if x["e"] == "publish":
                n += 1
                src, bin = (n if x[t] > 0 else x[t] for t in ("src", "bin"))
                d.publish(x["loc"], src, bin)
                lines.append(dict(e="publish", loc=x["loc"], src=src, bin=bin))
            elif x["e"] == "age":
                for p in (d.dir.iterdir() if d.dir.is_dir() else []):
                    st = p.stat()
                    os.utime(p, (st.st_atime - x["secs"], st.st_mtime - x["secs"]))
                lines.append(dict(e="age", secs=x["secs"]))
            elif x["e"] == "damage":
                for p in (d.dir.iterdir() if d.dir.is_dir() else []):
                    st, b = p.stat(), p.read_bytes()
                    p.write_bytes(dict(cut=b[: len(b) // 2], empty=b"", garbage=b"\x07garbage" * 20, flip=b[:1] + bytes([b[1] ^ 0xff]) + b[2:] if len(b) > 1 else b"")[x["how"]])
                    os.utime(p, (st.st_atime, st.st_mtime))
                lines.append(dict(e="damage"))
            elif x["e"] == "plan":
                conf, told = d.conf(s["confs"][x["conf"] - 1])
                set_rver(w, x["rver"])
                w.write_config(conf)
                w.env_extra = dict(R_AVAILABLE_PACKAGES_CACHE_CONTROL_MAX_AGE=x["ttl"]) if x["ttl"] else {}
                R = parallel_runs(w, 3) if x["par"] else [w.run(["plan"])]
                outs = {r.outcome for r in R}
                lines.append(dict(e="plan", conf=told, rver=x["rver"], ttl={"": 3600, "abc": 3600}.get(x["ttl"]) or int(x["ttl"] if x["ttl"] not in ("", "abc") else 3600),
                                  par=x["par"], outcome=outs.pop() if len(outs) == 1 else "differ", sels=[d.sel(r) for r in R], files=len(d.listing())))
            elif x["e"] == "clean":
                conf, told = d.conf(s["confs"][x["conf"] - 1])
                set_rver(w, x["rver"])
                w.write_config(conf)
                w.env_extra = {}
                before = d.listing()
                other = tree_digest(w.proj)
                args = ["clean", "pkgdbs"] if x["all"] else ["clean", "pkgdbs", "--repos=" + ",".join(x["names"])]
                if x["all"] and x["viaall"]:
                    args = ["clean", "--all"]
                r = w.run(args)
                after = d.listing()
                lines.append(dict(e="clean", conf=told, rver=x["rver"], all=x["all"], names=[] if x["all"] else x["names"], outcome=r.outcome,
                                  kept=all(before.get(k) == v for k, v in after.items()) and tree_digest(w.proj) == other, files=len(after)))
        lines.append(dict(e="over"))
        return lines
    finally:
        w.close()


def parallel_runs(w, n):
    """The same run several times at once."""
    out = []
    ps = []
    for k in range(n):
        f = w.root / f"out{k}.txt"
        with open(f, "wb") as fo:
            ps.append((subprocess.Popen([str(BUILD / "pkgr"), "--config", str(w.proj / "pkgr.yml"), "--loglevel=debug", "--logjson", "plan"], cwd=w.proj, env=w.env(),
                                        stdout=fo, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True), f))
    for p, f in ps:
        try:
            p.wait(240)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            raise HarnessError("time limit exceeded by parallel plan runs")
        out.append(Result("exit", p.returncode, f.read_text(errors="replace"), []))
    return out


def db_runs(ctx, profile, n):
    S = tlc.generate("GenDb", profile, n, ctx.seed)
    R = ctx.pool(S, lambda ix, s: db_history(ctx, f"{profile}.{ix}", s), what=profile)
    ctx.search(f"db:{profile}", "TraceDb", [(f"{profile}.{ix}", R[ix], dict(kind="db", scenario=S[ix])) for ix in sorted(R)])
