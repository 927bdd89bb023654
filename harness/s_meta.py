"""Origin fields of installed packages."""
from common import *
from scen import *
from s_install import scenarios

LONG = " ".join(f"file_number_{i}.R" for i in range(6000))


def fields_of(text):
    """Fields of a DESCRIPTION, in order, values as written."""
    res = []
    for l in text.split("\n"):
        if l[:1] in (" ", "\t") and res:
            res[-1]["v"] += "\n" + l
        elif l:
            k, s, v = l.partition(":")
            res.append(dict(n=k, v=v.strip()))
    for f in res:
        if len(f["v"]) > 400:
            f["v"] = hashlib.sha1(f["v"].encode()).hexdigest()
    return res


def meta_runs(ctx, profile, n):
    S = scenarios(ctx, profile, n)
    V = tlc.generate("GenMeta", "ProfMeta", n, ctx.seed + 3)
    version = subprocess.run([str(BUILD / "pkgr"), "--version"], stdout=subprocess.PIPE, text=True).stdout.strip()
    def one(ix, s):
        w = ctx.world()
        rid = f"{profile}.{ix}"
        try:
            fs = {k["pkg"]: [f"{x['n']}: {LONG if x['v'] == 'LONG' else x['v']}" for x in k["fields"]] for k in V[ix]["f"]}
            for r in s["world"]["repos"]:
                for rec in r["src"] + r["bin"]:
                    rec["descextra"] = fs.get(rec["pkg"], [])
            s["tarextra"] = fs
            prepare(w, s)
            w.set_policy(pkgs=policy_of(s), desc=True)
            def metas(res):
                out, last = [], {}
                for e in res.events:
                    if e["ev"] == "IE" and e["rc"] == 0 and e["lib"] == str(w.lib):
                        last[e["pkg"]] = e
                for p, e in sorted(last.items()):
                    f = w.lib / p / "DESCRIPTION"
                    if f.is_file():
                        out.append(dict(e="meta", p=p, orig=fields_of(e["desc"]), fin=fields_of(f.read_text()), version=version, path=e["path"]))
                # after a rollback what is there is not this run's doing
                if any(e["ev"] in ("BE", "IE") and e["rc"] != 0 for e in res.events) and not s["cfg"]["norollback"]:
                    out = []
                names = [x["pkg"] for x in w.lib_entries() if x["kind"] == "pkg"]
                if w.lib.is_dir() and len(set(names)) == len(names):
                    q = w.run(["inspect", "--installed-from"] + ["--json"] * (ix % 2) + w.flags, log=("--loglevel=fatal",))
                    try:
                        j = json.loads(q.text)
                        got = [j[k] or [] for k in ("pkgr", "packrat", "unknown")]
                    except (ValueError, KeyError, TypeError):
                        got = [["?"]] * 3
                    st = {x["pkg"]: (w.lib / x["dir"] / "DESCRIPTION").read_text(errors="replace") for x in w.lib_entries() if x["kind"] == "pkg"}
                    out.append(dict(e="origin", st=sorted(n for n, t in st.items() if "\nPkgrVersion:" in "\n" + t), un=sorted(n for n, t in st.items() if "\nPkgrVersion:" not in "\n" + t),
                                    outcome=q.outcome, pkgr=got[0], rest=got[1] + got[2]))
                return out
            res, out = recorded(w, s, "install", rid, extra=metas)
            return out
        finally:
            w.close()
    R = ctx.pool(S, one, what=profile)
    for o in R.values():
        for l in o:
            for r in (l.get("w") or {}).get("repos", []):
                for rec in r["src"] + r["bin"]:
                    rec.pop("descextra", None)
    ctx.validate(f"meta:{profile}", "TraceInstall", [(f"{profile}.{ix}", R[ix], dict(kind="meta", scenario=S[ix], fields=V[ix])) for ix in sorted(R)])
