"""Installs of thousands of packages (Scale)."""
from common import *
from scen import *


def direct(s, n, k, p):
    if s == "star":
        return [1] if p > 1 else []
    if s == "rstar":
        return list(range(1, n)) if p == n else []
    if s == "chain":
        return [p - 1] if p > 1 else []
    if s == "comb":
        return [1 + p % k] if p > k else []
    if s == "funnel":
        return list(range(1, k + 1)) if p == k + 1 else [k + 1] if p > k + 1 else []
    if s == "layers":
        l = (p - 1) // k
        return list(range((l - 1) * k + 1, l * k + 1)) if l else []
    return []


def name(p):
    return f"p{p:05d}"


def scale_run(ctx, s):
    w = ctx.world()
    try:
        n, k, sh = s["n"], s["k"], s["shape"]
        a = min(s["absent"], n)
        hubs = dict(star=[1], rstar=[n], comb=range(1, k + 1), funnel=[k + 1, 1, n]).get(sh, [1, n])
        todo = dict(first=range(1, a + 1), last=range(n - a + 1, n + 1), spread=range(1, n + 1, max(1, n // a)), hubs=hubs)[s["where"]] if a < n else range(1, n + 1)
        todo = sorted({p for p in todo if 1 <= p <= n})[: max(a, 60)]
        rng = random.Random(s["pick"])
        failed = dict(none=[], one=[rng.choice(todo)], first=todo[:1], last=todo[-1:], all=todo[:200], some=[p for p in todo if rng.random() < 0.1])[s["fail"]]
        how = s["how"] if not (s["bin"] and s["how"] == "nobin") else "if"
        # a package that is installed from a binary has no build to fail
        pol = {name(p): {"bf": dict(bf=1), "if": {"if": 1}, "nobin": dict(nobin=True), "sig": dict(bf=-9)}[how] for p in failed}
        if s["bin"]:
            pol = {q: {"if": x.get("if") or x.get("bf") or 1} for q, x in pol.items()}
        for p in rng.sample(todo, min(s["slow"], len(todo))) if s["slow"] else []:
            pol.setdefault(name(p), {}).update(bd=rng.choice([120, 250, 400]), id=rng.choice([0, 120, 250]))
        recs = [dict(pkg=name(p), ver="1.0", imp=[name(q) for q in direct(sh, n, k, p)]) for p in range(1, n + 1)]
        r = dict(name="R1", src=[] if s["bin"] else recs, bin=recs if s["bin"] else [], rtype="MPN" if s["bin"] else "")
        w.publish(r)
        order = list(range(1, n + 1))
        rng.shuffle(order)
        w.write_config(dict(repos=[r], packages=[name(p) for p in order], threads=s["threads"], norollback=s["norollback"]))
        w.lib.mkdir()
        here = sorted(set(range(1, n + 1)) - set(todo))
        for p in here:
            d = w.lib / name(p)
            d.mkdir()
            (d / "DESCRIPTION").write_text(f"Package: {name(p)}\nVersion: 1.0\nBuilt: R 4.1.2; ; pre; unix\n")
        w.env_extra = dict(GOMAXPROCS=str(s["procs"]))
        w.set_policy(light=True, pkgs=pol)
        res = w.run(["install"], timeout=500)
        if res.outcome == "hang":
            ctx.hangs += 1
        calls, bad = [], set()
        for e in res.events:
            if e["ev"] in ("BS", "IS", "BE", "IE"):
                p = int(e["pkg"][1:])
                calls.append(p if e["ev"][1] == "S" else -p)
                if e["ev"][1] == "E" and (e["rc"] != 0 or (e["ev"] == "BE" and pol.get(e["pkg"], {}).get("nobin"))):
                    bad.add(p)
        outcome = "crash" if "goroutine " in res.text and ("panic:" in res.text or "fatal error:" in res.text) else res.outcome
        final = [int(d.name[1:]) for d in w.lib.iterdir() if re.match(r"^p\d{5}$", d.name)]
        th = s["threads"]
        return [dict(s=sh, n=n, k=k, here=here, workers=th if th > 0 else min(8, s["procs"]), norollback=s["norollback"], calls=calls, failed=sorted(bad),
                     outcome=outcome, final=final, percall=1 if s["bin"] else 2)]
    finally:
        w.close()


def scale_runs(ctx, n, profile="ProfScale", suite="scale"):
    S = tlc.generate("GenScale", profile, n, ctx.seed)
    R = ctx.pool(S, lambda ix, s: scale_run(ctx, s), threads=5, what="large plans")
    ctx.validate(suite, "TraceScale", [(f"{suite}.{ix}", R[ix], dict(kind="scale", scenario=S[ix])) for ix in sorted(R)])
