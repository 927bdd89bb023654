"""What configured paths and switches come to (Settings)."""
from common import *
from scen import *

WRAP = """#!/bin/bash
echo '%s' >> '%s/which'
exec -a '%s/rbin/%s' '%s/rbin/R' "$@"
"""
VARNAME = "PKGRPLACE"
ROLES = {"lib", "lib x", "lib1", "lib2", "lib3", "sublib", "sublib x", "cache", "subcache", "all.log", "inst.log", "suball.log", "subinst.log", "pkgr.yml", "other.yaml"}
CMD = dict(install=["install"], plan=["plan"], load=["load"], run=["run"], inspect=["inspect", "--deps"], add=["add", "zz"], cleancache=["clean", "cache"])


class Scene:
    def __init__(self, w, s, sc):
        self.w, self.s, self.sc = w, s, sc
        r = w.root
        self.bases = dict(conf=r / "home/work/conf", parent=r / "home/work", home=r / "home", far=r / "far", bin=r / "bin", xdg=r / "xdg", elsewhere=r / "elsewhere")
        for b in self.bases.values():
            for d in ("sub", "logs", "sublogs", "sub/logs"):
                if b.name not in ("bin", "xdg"):
                    (b / d).mkdir(parents=True, exist_ok=True)
            b.mkdir(exist_ok=True)

    def at(self, l):
        return self.bases[l["base"]] / l["tail"]

    def written(self, p):
        t = p["tail"]
        return dict(rel=t, dot="./" + t, up="../" + t, abs=f"{self.bases['far']}/{t}", tilde="~/" + t, name=t, var=f"${VARNAME}/{t}", brace="${" + VARNAME + "}/" + t, glue="${" + VARNAME + "}" + t)[p["form"]]

    def place(self, path):
        """A path of the file system as a place of the model."""
        path = Path(os.path.normpath(path))
        for b in ("conf", "parent", "home", "far", "bin", "xdg", "elsewhere"):
            try:
                t = path.relative_to(self.bases[b])
            except ValueError:
                continue
            parts = t.parts
            if b == "xdg":
                return dict(base="xdg", tail="db" if "r_packagedb_caches" in parts else "pkgr" if parts[:1] == ("pkgr",) else str(t))
            if not parts:
                return dict(base=b, tail="")
            if parts[:1] == ("packrat",) and len(parts) > 3:
                return dict(base=b, tail="/".join(parts[:4]))
            for k, x in enumerate(parts):
                if x in ROLES:
                    return dict(base=b, tail="/".join(parts[:k + 1]))
            return dict(base=b, tail=str(t))
        return dict(base="other", tail=str(path))

    def wrapper(self, path, loc):
        path.parent.mkdir(parents=True, exist_ok=True)
        path.write_text(WRAP % (json.dumps(loc), self.w.root, self.w.root, "R", self.w.root))
        os.chmod(path, 0o755)
        rs = path.parent / "Rscript"
        rs.write_text(WRAP % (json.dumps(loc), self.w.root, self.w.root, "Rscript", self.w.root))
        os.chmod(rs, 0o755)

    def files(self):
        out = {}
        for d, ds, fs in os.walk(self.w.root):
            if Path(d) == self.w.root:
                ds[:] = [x for x in ds if x not in ("rbin", "tmp", "repos")]
                continue
            for f in fs:
                q = os.path.join(d, f)
                st = os.lstat(q)
                out[q] = (st.st_mtime_ns, st.st_size, st.st_ino)
            out[d] = "dir"
        return out


def settings_run(ctx, x):
    s, sc = x["s"], x["scene"]
    w = ctx.world()
    try:
        n = Scene(w, s, sc)
        f = s["file"]
        # the packages
        rec = lambda p, v: dict(pkg=p, ver=v, dep=[], imp=[], lnk=[], sug=[])
        for key, recs in (("repo", [rec("pa", "1.1"), rec("dp", "1.0")]), ("repo2", [rec("pb", "1.0")])):
            if sc[key]["base"] != "none":
                w.publish(dict(name=key, loc="stage", oid="O", src=recs))
                repo = n.at(sc[key])
                repo.parent.mkdir(parents=True, exist_ok=True)
                shutil.rmtree(repo, ignore_errors=True)
                os.rename(w.root / "repos/stage", repo)
        for key, r in (("tar", rec("tb", "2.0")), ("tar2", rec("tc", "1.0"))):
            if sc[key]["base"] != "none":
                tar = n.at(sc[key])
                tar.parent.mkdir(parents=True, exist_ok=True)
                write_tarball(w, r, path=tar)
        desc = n.at(sc["desc"])
        desc.parent.mkdir(parents=True, exist_ok=True)
        desc.write_text("Package: proj1\nVersion: 0.1\nImports: dp\n")
        # R
        for loc in (dict(base="bin", tail="R"), dict(base="bin", tail="R-devel"), sc["r"]):
            n.wrapper(n.at(loc), loc)
        lib = None
        if sc["lib"]["base"] != "none":
            lib = n.at(sc["lib"])
            if s["libthere"]:
                w.put_package("pa", "1.0", "old/pa", lib=lib)
        for l in sc["logs"]:
            n.at(l).parent.mkdir(parents=True, exist_ok=True)
            n.at(l).write_text("before\n")
        # the configuration
        two = [y for y in ("tar2", "repo2") if f[y]["form"] != "none"]
        L = ["Version: 1", "Packages:", "  - pa"] + ["  - pb"] * ("repo2" in two) + ["Threads: 2"]
        def put(key, p):
            if p["form"] != "none":
                L.append(f"{key}: {n.written(p)}" if h(x["key"], key) % 2 else f'{key}: "{n.written(p)}"')
        put("Library", f["lib"])
        put("RPath" if h(x["key"], "r") % 2 else "Rpath", f["r"])
        put("Cache", f["cache"])
        both = lambda a, key, pre="": [f"  - {pre}{n.written(f[a])}"] + ([f"  - {pre.replace('RA', 'RB')}{n.written(f[key])}"] if key in two else [])
        turn = lambda l, k: l[::-1] if h(x["key"], k) % 2 else l
        L += ["Tarballs:", *turn(both("tar", "tar2"), "tt"), "Descriptions:", f"  - {n.written(f['desc'])}", "Repos:", *turn(both("repo", "repo2", "RA: "), "tr")]
        if s["lock"]:
            L += ["Lockfile:", f"  Type: {s['lock']}"]
        if f["logall"]["form"] != "none" or f["loginst"]["form"] != "none":
            L.append("Logging:")
            put("  All", f["logall"])
            put("  Install", f["loginst"])
            L.append(f"  Overwrite: {'true' if f['overwrite'] else 'false'}")
        for k, key in (("noupdate", "NoUpdate"), ("strict", "Strict")):
            if f[k]:
                L.append(f"{key}: {'true' if f[k] == 'on' else 'false'}")
        conf = n.bases["conf"] / s["name"]
        conf.write_text("\n".join(L) + "\n")
        # how pkgr is called
        cwd = n.bases[dict(conf="conf", parent="parent", far="elsewhere")[s["cwd"]]]
        args = list(CMD[s["cmd"]])
        if s["how"] != "default":
            home = w.root / "home"
            c = dict(rel=os.path.relpath(conf, cwd), abs=str(conf), tilde=None)[s["how"]]
            if c is None:
                c = ("~/" if h(x["key"], "c") % 3 else "~/../home/") + os.path.relpath(conf, home)
            args += ["--config", c]
        if s["flag"]["lib"]["form"] != "none":
            args += ["--library", n.written(s["flag"]["lib"])]
        if s["flag"]["noupdate"]:
            args.append(["--no-update=false", "--update"][h(x["key"], "u") % 2] if s["flag"]["noupdate"] == "off" else "--no-update")
        if s["flag"]["strict"]:
            args.append("--strict=false" if s["flag"]["strict"] == "off" else "--strict")
        e = dict(PATH=f"{w.root}/bin:/usr/local/bin:/usr/bin:/bin")
        if s["broken"] == "r":
            e["PATH"] = f"{w.root}/bin"
        v = dict(far=str(n.bases["far"]), tilde="~", rel="sub", empty="")
        if s["v"] in v:
            e[VARNAME] = v[s["v"]]
        if s["env"]["lib"]["form"] != "none":
            e["PKGR_LIBRARY"] = n.written(s["env"]["lib"])
        if s["env"]["r"]["form"] != "none":
            e["PKGR_RPATH"] = n.written(s["env"]["r"])
        w.env_extra = e
        w.lib = lib or w.root / "none"
        w.set_policy(renvlib=n.written(s["renv"]), renvsays=s["renvsays"])
        broken(n, s["broken"], conf, h(x["key"], "b"))
        which = w.root / "which"
        which.unlink(missing_ok=True)
        before = n.files()
        res = w.run(args, config=None, cwd=cwd)
        after = n.files()
        if res.outcome == "hang":
            ctx.hangs += 1
        # new directories that lead to something are not worth a mention
        new = {q for q in after if q not in before}
        leads = {q for q in new if after[q] == "dir" and any(o.startswith(q + "/") for o in new)}
        touched = {json.dumps(n.place(q)) for q in before.keys() | after.keys() if before.get(q) != after.get(q) and q not in leads}
        libs = set()
        for v in res.events:
            if v["ev"] in ("IS", "TS") or v["ev"] == "BS" and v.get("dir"):
                libs.add(json.dumps(n.place(v["lib"])))
            elif v["ev"] == "RUN":
                site = [y.partition("=")[2] for y in v["env"] if y.startswith("R_LIBS_SITE=")]
                libs.add(json.dumps(n.place(os.path.join(v["cwd"], site[0] if site else "nothing"))))
        pkgs, updated = [], False
        if lib and lib.is_dir():
            pkgs = sorted(p.name for p in lib.iterdir() if (p / "DESCRIPTION").exists())
            updated = (lib / "pa/DESCRIPTION").exists() and "Version: 1.1" in (lib / "pa/DESCRIPTION").read_text()
        lost = [l for l in sc["logs"] if not n.at(l).read_text().startswith("before\n")]
        o = dict(outcome=res.outcome, rs=[json.loads(y) for y in sorted(set(which.read_text().splitlines()))] if which.exists() else [], libs=[json.loads(y) for y in sorted(libs)],
                 pkgs=pkgs, updated=updated, touched=[json.loads(y) for y in sorted(touched)], kept=not lost)
        return [dict(e="run", s=s, o=o)], res.text[-1500:] + "\n" + "\n".join(L) + "\n" + " ".join(args) + str(e)
    finally:
        w.close()


def broken(n, what, conf, k):
    def spoil(path, *ways):
        w = ways[k % len(ways)]
        if w is None:
            path.unlink()
        else:
            path.write_text(w)
    if what in ("conf", "confbad"):
        spoil(conf, *([None] if what == "conf" else ["Packages: [a\n", "Packages:\n\t- a\n", "- a\n- b\n", "just a line\n"]))
    elif what in ("desc", "descbad"):
        spoil(n.at(n.sc["desc"]), *([None] if what == "desc" else ["this is not\na DESCRIPTION file\n"]))
    elif what in ("tar", "tarbad"):
        spoil(n.at(n.sc["tar"]), *([None] if what == "tar" else ["", "not a tarball\n"]))
    elif what == "repo":
        shutil.rmtree(n.at(n.sc["repo"]))
    elif what == "r":
        for f in (n.at(n.sc["r"]), n.at(n.sc["r"]).parent / "Rscript"):
            f.unlink(missing_ok=True)


def settings_runs(ctx, n, profile="ProfSettings"):
    S = tlc.generate("GenSettings", profile, n, ctx.seed)
    for ix, x in enumerate(S):
        x["key"] = f"{profile}/{ctx.seed}/{ix}"
    R = ctx.pool(S, lambda ix, x: settings_run(ctx, x), what=profile)
    ctx.validate(f"settings:{profile}", "TraceSettings", [(f"{profile}.{ix}", R[ix][0], dict(kind="settings", scenario=S[ix], text=R[ix][1])) for ix in sorted(R)])
