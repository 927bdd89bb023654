"""Plan, inspect and strict-mode runs."""
from common import *
from scen import *
from s_install import scenarios


def plan_then_install(ctx, profile, n):
    """C05: the plan command, then an install with the same inputs."""
    S = scenarios(ctx, profile, n, rename=1)
    def one(ix, s):
        w = ctx.world()
        rid = f"{profile}.{ix}"
        try:
            prepare(w, s)
            out = []
            recorded(w, s, "plan", rid, lines=out, extra=report_line)
            recorded(w, s, "install", rid, lines=out, cont=True)
            return out
        finally:
            w.close()
    R = ctx.pool(S, one, what=profile)
    ctx.validate(f"plan+install:{profile}", "TraceInstall", [(f"{profile}.{ix}", R[ix], dict(kind="plan+install", scenario=S[ix])) for ix in sorted(R)])


def lives(ctx, profile, n, steps=4):
    """One library, one cache and a project that changes under them: other packages asked for, other
    versions offered, another R, failing builds, cleaned caches.  Every run is judged by what it found."""
    S = scenarios(ctx, profile, n * steps, rename=steps)
    G = [S[k * steps:(k + 1) * steps] for k in range(n)]
    def one(ix, g):
        w = ctx.world()
        rid = f"{profile}.{ix}"
        try:
            out = []
            for k, s in enumerate(g):
                prepare(w, s, prewarm=k == 0, library=k == 0)
                x = h(s["key"], "life")
                # what is remembered of the repositories is looked up again
                if x % 3 == 0:
                    w.run(["clean", "pkgdbs"])
                else:
                    shutil.rmtree(w.root / "xdg/pkgr/r_packagedb_caches", ignore_errors=True)
                    shutil.rmtree(w.root / "xdg/r_packagedb_caches", ignore_errors=True)
                if x % 11 == 0:
                    w.run(["clean", "cache"] + [[], ["--src-only"], ["--binaries-only"]][x // 11 % 3])
                if x % 2:
                    recorded(w, s, "plan", rid, lines=out, extra=report_line)
                res, _ = recorded(w, s, "install", rid, lines=out, cont=bool(x % 2))
                if res.outcome == "hang":
                    ctx.hangs += 1
                    break
            return out
        finally:
            w.close()
    R = ctx.pool(G, one, what=profile)
    ctx.validate(f"life:{profile}", "TraceInstall", [(f"{profile}.{ix}", R[ix], dict(kind="life", scenario=G[ix])) for ix in sorted(R)])


LEFTOVERS = ["", "old", "lock", "stray"]


def soil(w, s, kind):
    """A library in a state a killed run may leave."""
    if not w.lib.exists() or not kind:
        return
    if kind == "old":
        w.put_package("pa", "0.0.9", "pre/pa", dirname="__OLD__pa")
    elif kind == "lock":
        (w.lib / "00LOCK-pb-7" / "pb").mkdir(parents=True)
        (w.lib / "00LOCK-pb-7/pb/f").write_text("x")
    else:
        (w.lib / "pc").mkdir(exist_ok=True)
        (w.lib / "pc/R").mkdir(exist_ok=True)


def previews(ctx, profile, n, what=("plan", "inspect", "load", "strict")):
    """C04, C26: preview commands in every state of the library."""
    S = scenarios(ctx, profile, n, rename=1)
    def one(ix, s):
        w = ctx.world()
        rid = f"{profile}.{ix}"
        try:
            prepare(w, s, prewarm=False)
            soil(w, s, LEFTOVERS[ix % 4] if "load" in what else "")
            flags = list(w.flags)
            out = []
            if "plan" in what:
                recorded(w, s, "plan", rid, lines=out)
                recorded(w, s, "plan", rid, args=["plan", "--show-deps"], lines=out, cont=True)
            if "inspect" in what:
                names = sorted({p for p in s["cfg"]["packages"]} | {"pc", "pe"})
                some = [p for p in names if h(s["key"], p) % 2]
                for mode, named in (("deps", []), ("deps", some), ("reverse", []), ("reverse", some), ("tree", []), ("tree", some)):
                    a = ["inspect", "--deps"] + ([f"--{mode}"] if mode != "deps" else []) + named
                    quiet = h(s["key"], mode, len(named)) % 2
                    if quiet:
                        a.insert(1, "--json")
                    recorded(w, s, "inspect", rid, args=a, lines=out, cont=bool(out),
                             log=("--loglevel=info",) if quiet else ("--loglevel=fatal",), extra=lambda res: listing_line(res, mode, named))
            if "load" in what:
                w.flags = []
                for a in (["load"], ["load", "--all", "--json"]):
                    res, o = recorded(w, s, "load", rid, args=a, lines=out, cont=bool(out))
                w.flags = flags
            if "strict" in what:
                s2 = dict(s, cfg=dict(s["cfg"], strict=True))
                w.flags = flags + ([] if s["cfg"]["strict"] else ["--strict"])
                if ix % 2:
                    shutil.rmtree(w.lib, ignore_errors=True)
                if not w.lib.exists():
                    recorded(w, s2, "install", rid, lines=out, cont=bool(out))
            return out
        finally:
            w.close()
    R = ctx.pool(S, one, what=profile)
    ctx.validate(f"preview:{profile}", "TraceInstall", [(f"{profile}.{ix}", R[ix], dict(kind="preview", what=what, scenario=S[ix])) for ix in sorted(R)])
