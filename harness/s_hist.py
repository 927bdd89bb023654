"""Histories: killed runs, failing transfers and builds, and what later runs make of them."""
from common import *
from scen import *
from s_install import scenarios

_http = None


def http():
    global _http
    if _http is None:
        _http = HttpServer()
    return _http


def pkg_of(rel):
    return os.path.basename(rel).split("_")[0] if "_" in os.path.basename(rel) else None


def with_builds(pol, builds):
    res = {p: dict(x) for p, x in pol.items()}
    for p, k in (builds or {}).items():
        x = res.setdefault(p, {})
        if k == "fail":
            x["bf"] = 1
        elif k == "nobin":
            x["nobin"] = True
        elif k == "instfail":
            x["if"] = 1
        else:
            x.update(bf=2, debris=True)
    return res


class History:
    def __init__(self, w, s, rid):
        self.w, self.s, self.rid, self.lines = w, s, rid, []

    def goal(self, cont=False):
        w = self.w
        self.lines.append(dict(e="goal", id=self.rid, w=strip_world(self.s, w), c=trace_cfg(self.s), lib=lib_ents(w), ex=w.lib.is_dir(),
                               procs=w.procs, cont=cont))

    def run(self, how, at=0, mode="", call=0, post=False, fault=None, builds=None, prefix=None):
        w = self.w
        w.set_policy(pkgs=with_builds(policy_of(self.s), builds), killAt=call, killPost=post)
        if w.http:
            w.faults = fault or {}
            w.faulted.clear()
            w.wellserved.clear()
        if at:
            res, _, _ = w.crash(["install", *w.flags], at, mode)
        else:
            res = w.run(["install", *w.flags])
        # what failed and was not fetched from the same place after all
        bad = sorted({pkg_of(x) for x in (w.faulted if w.http else []) if pkg_of(x) and x not in w.wellserved})
        ls = [dict(e="begin", how=how, bad=bad)] + [l for l in event_lines(res, w)]
        ls.append(dict(e="stop", how=how, outcome=res.outcome, ex=w.lib.is_dir(), lib=lib_ents(w)))
        self.lines += [dict(l, id=self.rid) for l in ls]
        return res


def trouble(hst, steps, total, calls):
    """The cut or faulty runs of a history."""
    w = hst.w
    for x in steps:
        c, f = x["cut"], x["fault"]
        if x["kind"] == "cut":
            if c["how"] == "call" and calls:
                hst.run("cut", call=1 + c["at"] * calls // 1001, post=c["post"])
            else:
                hst.run("cut", at=max(1, 1 + c["at"] * total // 1001), mode=c["mode"])
        else:
            fl = {f"{k['only']}:{p}": k["kind"] for p, k in dic(f["pkgs"]).items()}
            for k, v in dic(f["dbs"]).items():
                fl[f"db:loc{k}"] = v
            hst.run("faulty", fault=fl, builds=dic(f["builds"]))


def dic(x):
    return x if isinstance(x, dict) else {}


def histories(ctx, gen, prof, n, points=3, fresh=True, name=None):
    """points: histories per scenario."""
    suite = f"history:{prof}"
    S = scenarios(ctx, gen, n)
    V = tlc.generate("GenHist", prof, n * points, ctx.seed + 5)
    def one(ix, s):
        w = ctx.world(http=http())
        out = []
        saved = None
        try:
            prepare(w, s)
            saved = w.save()
            # an undisturbed run, to know how long it is
            cutting = any(x["kind"] == "cut" for v in V[ix * points:(ix + 1) * points] for x in v["f"])
            total = calls = 0
            if cutting:
                res, total, _ = w.crash(["install", *w.flags], 0)
                calls = len(res.events)
                w.restore(saved)
            for k in range(points):
                rid = f"{gen}.{prof}.{ix}.{k}"
                hst = History(w, s, rid)
                hst.goal()
                trouble(hst, V[ix * points + k]["f"], total, calls)
                res = hst.run("rerun")
                hst.run("again")
                if fresh and k % 2 == 0:
                    shutil.rmtree(w.lib, ignore_errors=True)
                    hst.goal(cont=True)
                    hst.run("fresh")
                out.append((rid, hst.lines, dict(kind="history", scenario=s, trouble=V[ix * points + k], total=total, calls=calls)))
                if res.outcome == "hang":
                    ctx.hangs += 1
                w.restore(saved)
            return out
        finally:
            w.close()
            if saved:
                shutil.rmtree(saved, ignore_errors=True)
    R = ctx.pool(S, one, what=suite)
    runs = [x for ix in sorted(R) for x in R[ix]]
    ctx.validate(suite, "TraceHistory", runs)



def sweep(ctx, gen, n, modes=("kill", "torn"), skip=0):
    """Every single point at which a run can be cut."""
    suite = f"sweep:{gen}"
    S = scenarios(ctx, gen, n + skip)[skip:]
    parts = 6
    def one(_, item):
        ix, s, part = item
        w = ctx.world(http=http())
        out = []
        saved = None
        try:
            prepare(w, s)
            saved = w.save()
            res, total, log = w.crash(["install", *w.flags], 0)
            w.restore(saved)
            for at in range(1 + part, total + 1, parts):
                for mode in modes:
                    if mode == "torn" and " write " not in log[at - 1]:
                        continue
                    if ctx.left() < 60:
                        return out
                    rid = f"{gen}.sweep.{ix}.{at}.{mode}"
                    hst = History(w, s, rid)
                    hst.goal()
                    hst.run("cut", at=at, mode=mode)
                    hst.run("rerun")
                    hst.run("again")
                    out.append((rid, hst.lines, dict(kind="sweep", scenario=s, at=at, mode=mode)))
                    w.restore(saved)
            return out
        finally:
            w.close()
            if saved:
                shutil.rmtree(saved, ignore_errors=True)
    R = ctx.pool([(ix, s, part) for ix, s in enumerate(S) for part in range(parts)], one, what=suite)
    ctx.validate(suite, "TraceHistory", [x for ix in sorted(R) for x in R[ix]])


def disk_sweep(ctx, gen, n, points=8, http_=False):
    """Runs during which one change of the file system fails, or all that create or write from some point on."""
    suite = f"disk:{gen}"
    S = scenarios(ctx, gen, n)
    def one(ix, s):
        w = ctx.world(http=http())
        rng = random.Random(ctx.seed * 1000 + ix)
        out = []
        saved = None
        try:
            prepare(w, s)
            saved = w.save()
            builds = {}
            if ix % 2:
                todo = sorted({e["pkg"] for e in w.run(["install", *w.flags]).events if e.get("pkg")})
                w.restore(saved)
                if todo:
                    builds = {rng.choice(todo): rng.choice(["fail", "nobin", "instfail"])}
                    w.set_policy(pkgs=with_builds(policy_of(s), builds))
            res, total, log = w.crash(["install", *w.flags], 0)
            w.restore(saved)
            at = list(range(1, total + 1))
            if len(at) > points and not ctx.thorough:
                # half of them where the library changes
                inlib = [i for i in at if str(w.lib) in log[i - 1]]
                at = sorted(set(rng.sample(at, points // 2) + rng.sample(inlib, min(len(inlib), points // 2))))
            for i in at:
                if ctx.left() < 60:
                    break
                mode = rng.choice(["fail1", "fail1", "enospc"])
                rid = f"{gen}.disk.{ix}.{i}.{mode}"
                hst = History(w, s, rid)
                hst.goal()
                hst.run("disk", at=i, mode=mode, builds=builds)
                hst.run("rerun")
                hst.run("again")
                out.append((rid, hst.lines, dict(kind="disk", scenario=s, at=i, mode=mode, builds=builds, call=log[i - 1])))
                w.restore(saved)
            return out
        finally:
            w.close()
            if saved:
                shutil.rmtree(saved, ignore_errors=True)
    R = ctx.pool(S, one, what=suite)
    ctx.validate(suite, "TraceHistory", [x for ix in sorted(R) for x in R[ix]])


def undo_sweep(ctx, gen, n, points=10):
    """Runs with failing packages that are cut while they change the library: staging, rolling back,
    cleaning up."""
    suite = f"undo:{gen}"
    S = scenarios(ctx, gen, n)
    def one(ix, s):
        w = ctx.world(http=http())
        rng = random.Random(ctx.seed * 1000 + ix)
        out = []
        saved = None
        try:
            prepare(w, s)
            saved = w.save()
            res = w.run(["install", *w.flags])
            w.restore(saved)
            todo = sorted({e["pkg"] for e in res.events if e.get("pkg")})
            if not todo:
                return []
            builds = {p: rng.choice(["fail", "nobin", "instfail"]) for p in rng.sample(todo, min(len(todo), rng.choice([1, 1, 2])))}
            w.set_policy(pkgs=with_builds(policy_of(s), builds))
            res, total, log = w.crash(["install", *w.flags], 0)
            w.restore(saved)
            at = [i + 1 for i, l in enumerate(log) if str(w.lib) in l and l.split(" ")[1] in ("unlink", "rmdir", "rename")]
            if len(at) > points and not ctx.thorough:
                at = sorted(rng.sample(at, points))
            for i in at:
                if ctx.left() < 60:
                    break
                rid = f"{gen}.undo.{ix}.{i}"
                hst = History(w, s, rid)
                hst.goal()
                hst.run("cut", at=i, mode="kill", builds=builds)
                hst.run("rerun")
                hst.run("again")
                out.append((rid, hst.lines, dict(kind="undo", scenario=s, at=i, builds=builds)))
                w.restore(saved)
            return out
        finally:
            w.close()
            if saved:
                shutil.rmtree(saved, ignore_errors=True)
    R = ctx.pool(S, one, what=suite)
    ctx.validate(suite, "TraceHistory", [x for ix in sorted(R) for x in R[ix]])
