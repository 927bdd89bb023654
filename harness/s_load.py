"""pkgr load."""
from common import *
from scen import *
from s_install import scenarios


def load_runs(ctx, n, profiles=("ProfPlan", "ProfEngine", "ProfMixed")):
    S = []
    for p in profiles:
        S += scenarios(ctx, p, n // len(profiles))
    V = tlc.generate("GenLoad", "ProfLoad", len(S), ctx.seed + 3)
    def one(ix, s):
        v = V[ix]
        w = ctx.world()
        rid = f"load.{ix}"
        try:
            c = s["cfg"]
            if v["dupl"]:
                c["packages"] = c["packages"] + c["packages"][:2]
            c["threads"] = v["threads"]
            s["procs"] = v["procs"]
            prepare(w, s, prewarm=False)
            w.flags = [f for f in w.flags if f.startswith("--threads")]
            pols, truth, inst = {}, [], {}
            for k, t in enumerate(v["t"]):
                big = "L" * 70000
                out, err = ([l.replace("LONG", big) for l in t[f]] for f in ("out", "err"))
                ver, path = f"1.{k}.{ix}", str(w.lib / t["p"])
                inst[t["p"]] = ver
                pols[t["p"]] = dict(out="\n".join(out), err="\n".join(err), lf=t["lrc"], nf=0 if t["iok"] else 1, ld=t["ld"], lq=t["lq"])
                lost = [f"Error in library('{t['p']}') : there is no package called {t['p']}"] if t["lrc"] and not t["lq"] else []
                truth.append(dict(p=t["p"], lok=t["lrc"] == 0, iok=t["iok"], ver=ver, path=path, out=[x.replace(big, "LONG") for x in out], err=[x.replace(big, "LONG") for x in err] + lost))
            w.set_policy(pkgs=pols, installed=inst, libpaths=[str(w.lib)])
            all_ = h(s["key"], "all") % 2 == 1
            js = h(s["key"], "json") % 3 > 0
            res = w.run(["load"] + ["--all"] * all_ + ["--json"] * js + w.flags, log=("--loglevel=trace", "--logjson"))
            if res.outcome == "hang":
                ctx.hangs += 1
            lines = [dict(e="load", w=strip_world(s, w), c=trace_cfg(s), all=all_, truth=truth, procs=w.procs)]
            for e in res.events:
                if e["ev"] in ("LS", "NS", "LE", "NE"):
                    lines.append(dict(e={"S": "s", "E": "f"}[e["ev"][1]], k=e["ev"][0], p=e["pkg"]))
            if js and res.outcome == "ok":
                lines.append(json_line(res.text))
            elif res.outcome == "ok":
                bad = [m["pkg"] for m in res.log if "received non-zero exit code" in m.get("msg", "")]
                some = res.msgs("some packages failed to load.")
                lines.append(dict(e="log", failing=bad, failures=int(some[0]["failures"]) if some else 0, allok=bool(res.msgs("all packages loaded successfully"))))
            lines.append(dict(e="end", outcome=res.outcome))
            return lines
        finally:
            w.close()
    R = ctx.pool(S, one, what="load")
    ctx.validate("load", "TraceLoad", [(f"load.{ix}", R[ix], dict(kind="load", scenario=S[ix], load=V[ix])) for ix in sorted(R)])


def json_line(text):
    at = text.find("{\n")
    try:
        d, _ = json.JSONDecoder().raw_decode(text[max(at, 0):])
        ls = lambda x: [l.replace("L" * 70000, "LONG") for l in x.split("\n") if l]
        return dict(e="json", failures=d["Failures"], res=[dict(p=p, pkg=r["Package"], ver=r["Version"], path=r["Path"], ok=r["Success"], out=ls(r["Stdout"]), err=ls(r["Stderr"]))
                                                          for p, r in d["LoadResults"].items()])
    except (ValueError, KeyError):
        return dict(e="json", failures=-1, res=[])
