"""Installs that share a cache, and cleaning (Cache)."""
from common import *
from scen import *
from s_hist import http

RVERS = ([4, 1, 2], [4, 10, 1], [4, 0, 5])


def package_in(f):
    """(genuine content, R version built by) of a package file."""
    try:
        m = {}
        with tarfile.open(f) as t:
            for x in t:
                if x.isfile():
                    m[x.name.split("/", 1)[1]] = t.extractfile(x).read()
        d, _ = parse_dcf(m["DESCRIPTION"].decode())
        mark = d["Marker"]
        if m["R/code.R"] != f"# {mark}\n".encode() or m.get("inst/pad", pad(mark)) != pad(mark):
            return "?", ""
        b = re.match(r"R (\d+\.\d+)", d.get("Built", ""))
        return mark, b.group(1) if b else ""
    except Exception:
        return "?", ""


def list_cache(w, cache):
    out = []
    if not cache.is_dir():
        return out
    for top in sorted(cache.iterdir()):
        if top.is_dir() and top.name != "r_packagedb_caches":
            tars = [parse_dcf(x.read_text(errors="replace"))[0].get("Marker", "") for x in top.glob("*/DESCRIPTION")]
            if any(t.startswith("tar/") for t in tars):
                # what installs leave beside the unpacked package is part of the copy
                out.append(dict(top=top.name, kind="tar", mark=tars[0], minor="", dig=""))
                continue
        for p in sorted([top] if top.is_file() else [x for x in top.rglob("*") if x.is_file()]):
            e = dict(top=top.name, kind="other", mark=str(p.relative_to(cache)), minor="", dig=tree_digest(p))
            if p.name.endswith(".tar.gz") and p != top:
                m, b = package_in(p)
                e.update(mark=m, minor=b, kind="src" if not b else "built" if "/src/" in m else "bin")
            elif top.name == "r_packagedb_caches":
                e.update(kind="db")
            out.append(e)
    return out


JUNKFILES = ("notes.txt", "mine/keep.txt", "r_extra/readme", "RA/other/data")


def choose_repos(x, tops, names):
    """The value of --repos."""
    k = x["pick"]
    if x["sel"] == "all" or not tops and x["sel"] in ("one", "two", "mixed", "prefix", "hash"):
        return None
    return dict(one=lambda: [tops[k % len(tops)]],
                two=lambda: sorted({tops[k % len(tops)], tops[(k // 7) % len(tops)]}),
                absent=lambda: ["RA-000000000000"],
                prefix=lambda: [tops[k % len(tops)][:-1]],
                hash=lambda: [tops[k % len(tops)].split("-")[-1]],
                name=lambda: [names[k % len(names)]],
                empty=lambda: [""],
                mixed=lambda: ["RB-0123456789ab", tops[k % len(tops)], "x"])[x["sel"]]()


def transfers(w):
    """The package files that were asked for."""
    out = []
    for rel in w.requests if w.http else []:
        base = os.path.basename(rel)
        if base.startswith("PACKAGES"):
            continue
        f = w.root / "repos" / rel
        out.append(dict(mark=package_in(f)[0] if f.is_file() else rel, rel=rel))
    return out


def cache_history(ctx, s, served=False):
    w = ctx.world(http=http() if served else None)
    try:
        for l, x in s["cx"].items():
            w.publish(dict(name=l, loc=l, oid="O" + l, rtype="MPN", src=x["src"], bin=x["bin"], suffixes=["", "s1"], rvers=RVERS), rver=[4, 1, 2])
        cache = w.root / "xdg/pkgr" if s["defcache"] else w.cache
        if s["junk"]:
            for f in JUNKFILES:
                (cache / f).parent.mkdir(parents=True, exist_ok=True)
                (cache / f).write_text("keep\n")
        w.procs = 4
        w.env_extra = dict(R_AVAILABLE_PACKAGES_CACHE_CONTROL_MAX_AGE="0", GOMAXPROCS="4")
        lines, last = [], None
        for k, x in enumerate(s["steps"]):
            if x["e"] == "inst":
                c = dict(x["c"], threads=s["threads"], strict=False)
                if x["tars"] != "all":
                    c["tarballs"] = c["tarballs"][:1] if x["tars"] == "first" else []
                fails = {f["p"]: {f["how"]: 1} for f in x["fails"]}
                if fails:
                    c["norollback"] = x["norb"]
                sc = dict(world=dict(x["w"]), cfg=c, key=f"{s['key']}/{k}", pol={}, lib={})
                last = sc
                if x["fresh"]:
                    shutil.rmtree(w.lib, ignore_errors=True)
                w.rver = x["w"]["rver"]
                w.set_policy(pkgs=fails)
                conf, flags = config_of(w, sc)
                if s["defcache"]:
                    conf["cache"] = False
                w.write_config(conf)
                lines.append(dict(e="run", w=strip_world(sc, w), c=trace_cfg(sc), lib=lib_ents(w), ex=w.lib.is_dir(), procs=w.procs, cont=bool(lines), cache=list_cache(w, cache)))
                out0 = outside_digest(w)
                if served:
                    w.requests.clear()
                res = w.run(["install", *flags])
                if res.outcome == "hang":
                    ctx.hangs += 1
                lines += event_lines(res, w)
                lines.append(dict(e="end", outcome=res.outcome, ex=w.lib.is_dir(), lib=lib_ents(w), cache=list_cache(w, cache), gets=transfers(w), fails=x["fails"],
                                  outside0=out0, outside=outside_digest(w)))
                continue
            c = dict(last["cfg"])
            if x["tars"] in ("first", "none"):
                c["tarballs"] = c["tarballs"][:1] if x["tars"] == "first" else []
            sc = dict(last, cfg=c)
            conf, flags = config_of(w, sc)
            if s["defcache"]:
                conf["cache"] = False
            if x["nowhere"]:
                conf["repos"] = [dict(r, loc="nowhere") for r in conf["repos"]]
            w.write_config(conf)
            gone = []
            if x["tars"] == "gone" and c["tarballs"]:
                p = w.proj / conf["tarball_paths"][0]
                gone = [(p, p.read_bytes())]
                p.unlink()
                c = dict(c, tarballs=c["tarballs"][1:])
            before = list_cache(w, cache)
            tops = sorted({e["top"] for e in before if e["kind"] in ("src", "bin", "built", "other") and e["mark"] != e["top"]})
            repos = choose_repos(x, tops, [r["name"] for r in x.get("w", last["world"])["repos"]])
            args = ["clean"] + dict(all=["--all"], cache=["cache"], none=[])[x["what"]]
            o = dict(what=x["what"], src=False, bin=False, allrepos=True, repos=[])
            if x["what"] == "cache":
                o.update(src=x["src"], bin=x["bin"])
                args += (["--src-only"] if x["src"] else []) + (["--binaries-only"] if x["bin"] else [])
                if repos is not None:
                    o.update(allrepos=False, repos=repos)
                    args += ["--repos=" + ",".join(repos)]
            out0 = outside_digest(w) + [tree_digest(w.lib)]
            res = w.run(args)
            lines.append(dict(e="clean", o=o, tars=[tar_marker(t) for t in c["tarballs"]], outcome=res.outcome, before=before, after=list_cache(w, cache),
                              outside0=out0, outside=outside_digest(w) + [tree_digest(w.lib)]))
            for p, b in gone:
                p.write_bytes(b)
        return lines
    finally:
        w.close()


def cache_runs(ctx, profile, n, checks, served=False):
    S = tlc.generate("GenCache", profile, n, ctx.seed, prefix="C", depth=14)
    for ix, s in enumerate(S):
        s["key"] = f"{profile}/{ctx.seed}/{ix}"
    R = ctx.pool(S, lambda ix, s: cache_history(ctx, s, served), what=profile)
    ctx.validate(f"cache:{profile}", "TraceCache", [(f"{profile}.{ix}", R[ix], dict(kind="cache", scenario=S[ix])) for ix in sorted(R)], checks)
