"""Turns generated scenarios into worlds and recorded runs into traces."""
import hashlib, json, os, re
from pathlib import Path
from pk import *


def h(*a):
    return int(hashlib.md5("/".join(map(str, a)).encode()).hexdigest()[:8], 16)


def vnum(s):
    v = [int(x) for x in re.split(r"[.-]", s) if x.isdigit()]
    return v or [0]


JUNKDIRS = ("zz junk", "00LOCK-zz", "__OLD__", "pa.Rcheck", "_cache", "PA")
JUNKFILES = (".Rhistory", "__OLD__notes.txt", "zz", "README.md", "__OLD__", "pa.part")


def tar_marker(t):
    return f"tar/{t['pkg']}_{t['ver']}{t.get('cid', '')}"


def write_tarball(w, t, path=None, extra=(), files=()):
    d = w.proj / "tars"
    d.mkdir(exist_ok=True)
    f = path or d / f"{t['pkg']}_{t['ver']}.tar.gz"
    n = t["pkg"]
    f.write_bytes(tar_gz([(f"{n}/DESCRIPTION", desc_lines(t, tar_marker(t), extra).encode()),
                          (f"{n}/R/code.R", f"# {tar_marker(t)}\n".encode())] + list(files)))
    return f


def set_library(w, lib):
    """lib: {exists, ents, junk}"""
    if w.lib.exists():
        shutil.rmtree(w.lib)
    if not lib["exists"]:
        return
    w.lib.mkdir()
    for e in lib["ents"]:
        w.put_package(e["pkg"], e["ver"], e["marker"], dirname=e["dir"])
    kind = lib.get("junk", "")
    k = h(json.dumps(lib, sort_keys=True))
    if kind in ("dir", "both"):
        p = w.lib / JUNKDIRS[k % len(JUNKDIRS)]
        p.mkdir()
        (p / "notes.txt").write_text("keep me\n")
    if kind in ("file", "both"):
        p = w.lib / JUNKFILES[k // 64 % len(JUNKFILES)]
        if not p.exists():
            p.write_text("x <- 1\n")


def config_of(w, scn):
    """Configuration for World.config_text and command-line flags, from a scenario's cfg; which of
    several ways a setting is expressed in is picked by a hash of the scenario."""
    c = scn["cfg"]
    key = scn.get("key", 0)
    conf = dict(packages=c["packages"], ignore=c["ignore"], repos=scn["world"]["repos"],
                suggests=c["suggests"], norec=c["norec"], spell=key)
    penv = dict(scn.get("penv", {}))
    conf["cust"] = [dict(k, env=penv.pop(k["pkg"], None)) for k in c["cust"]] + [dict(pkg=p, env=e) for p, e in penv.items()]
    flags = []
    def opt(name, on, flag):
        if on:
            if h(key, name) % 2:
                conf[name] = True
            else:
                flags.append(flag)
    opt("noupdate", not c["update"], "--no-update")
    opt("norollback", c["norollback"], "--no-rollback")
    opt("strict", c["strict"], "--strict")
    if c["threads"] > 0:
        if h(key, "th") % 2:
            conf["threads"] = c["threads"]
        else:
            if h(key, "th2") % 2:
                conf["threads"] = c["threads"] + 3  # the command line wins
            flags.append(f"--threads={c['threads']}")
    elif h(key, "th") % 3 == 1:
        conf["threads"] = 0
    elif h(key, "th") % 3 == 2:
        conf["threads"] = c["threads"]
    conf["library"] = "lib" if c.get("rellib") else str(w.lib)
    conf["tarball_paths"] = []
    for i, t in enumerate(c["tarballs"]):
        f = write_tarball(w, t, extra=scn.get("tarextra", {}).get(t["pkg"], []))
        conf["tarball_paths"].append(str(f) if h(key, "tp", i) % 2 else f"tars/{f.name}")
    conf["desc_paths"] = []
    for i, t in enumerate(c["descs"]):
        d = w.proj / f"desc{i}"
        d.mkdir(exist_ok=True)
        (d / "DESCRIPTION").write_text(desc_lines(t))
        conf["desc_paths"].append(str(d / "DESCRIPTION") if h(key, "dp", i) % 2 else f"desc{i}/DESCRIPTION")
    return conf, flags


def policy_of(scn):
    res = {}
    for p, x in (scn["pol"] if isinstance(scn["pol"], dict) else {}).items():
        res[p] = dict(bd=x["bd"], id=x["id"], bf=x["bf"], nobin=x["nobin"], debris=x["debris"])
        res[p]["if"] = x["if"]
    return res


def strip_world(scn, w=None):
    return dict(rver=scn["world"]["rver"], repos=[dict(url=w.repo_url(r) if w else "", name=r["name"], oid=r["oid"], boid=r.get("boid", r["oid"]), rtype=r["rtype"], dtype=r["dtype"], suffix=r.get("suffix", ""),
                src=r["src"], bin=r["bin"]) for r in scn["world"]["repos"]])


def lib_ents(w, lib=None):
    return [dict(e, vn=vnum(e["ver"])) for e in w.lib_entries(lib)]


def prepare(w, scn, prewarm=True, library=True):
    w.rver = scn["world"]["rver"]
    for r in scn["world"]["repos"]:
        w.publish(r)
    conf, flags = config_of(w, scn)
    w.write_config(conf)
    w.flags = flags
    w.conf = conf
    cz = [p for p, x in (scn["pol"] if isinstance(scn["pol"], dict) else {}).items() if x["cached"]]
    if prewarm and cz:
        # earlier install of some packages into another library, with the same cache
        tars = {t["pkg"] for t in scn["cfg"]["tarballs"]}
        other = dict(conf, packages=[p for p in cz if p not in tars], library=str(w.root / "otherlib"), tarball_paths=[], desc_paths=[])
        w.write_config(other, "other.yml")
        w.set_policy()
        w.run(["install"], config="other.yml")
    if library:
        set_library(w, scn["lib"])
    w.procs = scn.get("procs", [1, 2, 4, 8, 16][h(scn.get("key", 0), "procs") % 5])
    w.env_extra = dict(scn.get("env", {}), GOMAXPROCS=str(w.procs))
    w.set_policy(pkgs=policy_of(scn))


def event_lines(res, w):
    lines = []
    for e in res.events:
        if e["ev"] in ("BS", "IS", "BE", "IE"):
            k = e["ev"][0]
            if e.get("dir") or (k == "I" and e["lib"] == str(w.lib) and e.get("marker", "").startswith("tar/")):
                k = "T"
            if e["ev"][1] == "S":
                ls = [dict(d=x["dir"], v=x["ver"] or "-", m=x["marker"] or "-") for x in e.get("libls") or []]
                bm = re.match(r"R (\d+\.\d+)", e.get("built") or "")
                lines.append(dict(e="s", k=k, p=e["pkg"], ver=e["ver"] or "-", marker=e["marker"] or "-", ls=ls, bm=bm.group(1) if bm else "",
                                  scratch=os.path.normpath(e["lib"]) != str(w.lib)))
            else:
                ok = e["rc"] == 0
                if k == "B" and ok and w.policy.get("pkgs", {}).get(e["pkg"], {}).get("nobin"):
                    ok = False  # the build reported success but left no binary
                lines.append(dict(e="f", k=k, p=e["pkg"], ok=ok))
    return lines


def outside_digest(w):
    """Everything besides the library, the caches and temporary files: configuration, descriptions,
    tarballs, repositories, and whatever else lies around."""
    around = [p for p in sorted(w.root.iterdir()) if p.name not in ("proj", "repos", "cache", "xdg", "tmp", "rbin") and not p.name.startswith("out")]
    around += [p for p in sorted((w.root / "xdg").iterdir()) if p.name not in ("pkgr", "r_packagedb_caches")]
    return [f"{p.name}:{tree_digest(p)}" for d in (w.proj, w.root / "repos") for p in sorted(d.iterdir()) if p != w.lib] + [f"{p.name}:{tree_digest(p)}" for p in around]


def trace_cfg(scn):
    c = {k: scn["cfg"][k] for k in ("packages", "ignore", "suggests", "norec", "cust", "tarballs", "descs", "threads", "update", "norollback", "strict")}
    return dict(c, tarballs=[dict(t, cid=t.get("cid", ""), bad=t.get("bad", False)) for t in c["tarballs"]])


def recorded(w, scn, cmd, rid, args=None, lines=None, cont=False, extra=None, **kw):
    """Runs pkgr once and appends its trace.  extra(res): further lines before the end."""
    before = lib_ents(w)
    ex0 = w.lib.is_dir()
    out0 = outside_digest(w)
    res = w.run([*(args or cmd.split()), *w.flags], **kw)
    out = [dict(e="run", id=rid, cmd=cmd, w=strip_world(scn, w), c=trace_cfg(scn), lib=before, ex=ex0, procs=w.procs, cont=cont)]
    out += event_lines(res, w)
    if extra:
        out += extra(res)
    out.append(dict(e="end", id=rid, outcome=res.outcome, ex=w.lib.is_dir(), lib=lib_ents(w), outside0=out0, outside=outside_digest(w)))
    for l in out:
        l["id"] = rid
    if lines is not None:
        lines.extend(out)
    return res, out


def report_line(res):
    """What a plan run reported."""
    sel = [dict(pkg=m.get("pkg"), repo=m.get("repo"), type={1: "source", 2: "binary"}.get(m.get("type"), str(m.get("type")).lower()), ver=m.get("version")) for m in res.msgs("package repository set")]
    plan = res.msgs("package installation plan")
    new = [m.get("package") for m in res.msgs("to install")]
    upd = [dict(pkg=m.get("pkg"), ver=m.get("update_version")) for m in res.msgs("package will be updated")]
    if len(plan) != 1:
        return []
    return [dict(e="report", sel=sel, ninst=int(plan[0]["to_install"]), nupd=int(plan[0]["to_update"]), upd=upd, new=new, hasnew=bool(new))]


def listing_line(res, mode, named):
    """What an inspect run printed."""
    t = res.text
    L = dict(e="inspect", mode=mode, named=named, out=[], roots=[], parsed=False)
    if mode == "tree":
        nodes, stack = [], []
        for l in t.split("\n"):
            m = re.match(r"^((?:│   |    |│\u00a0\u00a0 |\s{4})*)(?:├──|└──) (\S+)$", l)
            if not m:
                continue
            depth = len(m.group(1)) // 4
            del stack[depth:]
            node = dict(p=m.group(2), ds=[])
            if stack:
                stack[-1]["ds"].append(m.group(2))
            else:
                L["roots"].append(m.group(2))
            nodes.append(node)
            stack.append(node)
        uniq = {}
        for n in nodes:
            uniq[(n["p"], tuple(n["ds"]))] = n
        L["out"] = list(uniq.values())
        L["parsed"] = True
        return [L]
    for i, l in enumerate(t.split("\n")):
        if l.startswith("{"):
            try:
                d, _ = json.JSONDecoder().raw_decode("\n".join(t.split("\n")[i:]))
                L["out"] = [dict(p=p, ds=ds or []) for p, ds in d.items()]
                L["parsed"] = True
            except ValueError:
                pass
            break
    return [L]
