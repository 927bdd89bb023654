"""Install runs in generated scenarios."""
from common import *
from scen import *


def run_one(ctx, s, rid, cmd="install", keep=None):
    w = ctx.world()
    try:
        prepare(w, s)
        args = None
        names = sorted(set(s["cfg"]["packages"]))
        if cmd == "install" and names and h(s["key"], "via") % 5 == 0:
            # "add --install" comes to the same as listing the packages and installing
            k = h(s["key"], "viak")
            later = [p for i, p in enumerate(names) if k >> i & 1] or names
            w.write_config(dict(w.conf, packages=[p for p in s["cfg"]["packages"] if p not in later]))
            args = ["add", "--install", *later] if k % 3 else ["add", *later, "--install"]
        res, out = recorded(w, s, cmd, rid, args=args)
        if args:
            for o in (out[-1]["outside"], out[-1]["outside0"]):
                o[:] = [x for x in o if not x.startswith("pkgr.yml:")]
        if res.outcome == "hang":
            ctx.hangs += 1
        return out
    finally:
        w.close()


NAMES = ["data.table", "data", "Rcpp", "rcpp", "R6", "r6", "x.y.z", "A3", "zoo", "Zoo", "pa", "Pa", "pA", "pa.b", "pab", "basement", "base64", "MASSx", "toolsX", "stats.x", "Matrix.utils", "a1b2",
         "R.utils", "R.oo", "parallelly", "e1071", "methods2", "tb", "tb11", "src", "bin", "contrib", "PACKAGES", "a" + "verylongname." * 6 + "x", "source", "binary", "Pkgr", "graph", "mass", "matrix"]
GENERATED = [f"p{c}" for c in "abcdefghijkl"]


def renamed(x, m):
    """The scenario with other package names."""
    if isinstance(x, dict):
        return {m.get(k, k): renamed(v, m) for k, v in x.items()}
    if isinstance(x, list):
        return [renamed(v, m) for v in x]
    return m.get(x, x) if isinstance(x, str) else x


def scenarios(ctx, profile, n, module="GenInstall", rename=0):
    """rename: so many scenarios in a row get the same real-looking names; 0: none do"""
    S = tlc.generate(module, profile, n, ctx.seed)
    for ix, s in enumerate(S):
        key = f"{profile}/{ctx.seed}/{ix}"
        k = h(profile, ctx.seed, ix // max(rename, 1), "names")
        if rename and k % 2:
            names = sorted(NAMES, key=lambda x: h(k, x))
            S[ix] = renamed(s, dict(zip(GENERATED, names)))
        S[ix]["key"] = key
    return S


def install(ctx, profile, n, cmd="install", checks=None):
    S = scenarios(ctx, profile, n, rename=1)
    R = ctx.pool(S, lambda ix, s: run_one(ctx, s, f"{profile}.{ix}", cmd), what=profile)
    ctx.validate(f"install:{profile}", "TraceInstall", [(f"{profile}.{ix}", R[ix], dict(kind="install", cmd=cmd, scenario=S[ix])) for ix in sorted(R)], checks)
