"""The engine's scheduling: order of R calls against Engine.tla."""
from common import *
from scen import *
from s_install import scenarios


def engine_runs(ctx, profile, n):
    S = scenarios(ctx, profile, n, rename=1)
    def one(ix, s):
        w = ctx.world()
        rid = f"{profile}.{ix}"
        try:
            prepare(w, s)
            tars = {t["pkg"] for t in s["cfg"]["tarballs"]}
            res, out = recorded(w, s, "install", rid)
            if res.outcome == "hang":
                ctx.hangs += 1
            return out
        finally:
            w.close()
    R = ctx.pool(S, one, what=profile)
    runs = []
    for ix in sorted(R):
        L = engine_lines(R[ix])
        if L:
            runs.append((f"{profile}.{ix}", L, dict(kind="engine", scenario=S[ix])))
    ctx.search(f"engine:{profile}", "TraceEngine", runs)
    ctx.validate(f"install:{profile}", "TraceInstall", [(f"{profile}.{ix}", R[ix], dict(kind="install", cmd="install", scenario=S[ix])) for ix in sorted(R)])


def engine_lines(lines):
    """A recorded install as the engine sees it: packages taken and done."""
    run = lines[0]
    tars = {t["pkg"] for t in run["c"]["tarballs"]}
    steps, began = [], set()
    for l in lines[1:]:
        if l["e"] == "s" and l["k"] != "T":
            if l["p"] not in began:
                began.add(l["p"])
                steps.append(dict(e="take", p=l["p"]))
        elif l["e"] == "f" and l["k"] != "T" and (l["k"] == "I" or not l["ok"]):
            steps.append(dict(e="done", p=l["p"], ok=l["ok"]))
    if not steps or began & tars or lines[-1]["outcome"] not in ("ok", "err"):
        return None
    return [dict(e="plan", w=run["w"], c=run["c"], lib=run["lib"], procs=run["procs"])] + steps + [dict(e="over")]
