"""Packages given as tarballs: what is in them from run to run (C23)."""
import bz2, lzma
from common import *
from scen import *
from s_install import scenarios


def noise(seed, n):
    out, x = [], hashlib.sha256(str(seed).encode()).digest()
    while len(out) * 32 < n:
        x = hashlib.sha256(x).digest()
        out.append(x)
    return b"".join(out)[:n]


def member(name, typ=tarfile.REGTYPE, link="", mode=0o644):
    t = tarfile.TarInfo(name)
    t.type, t.linkname, t.mode = typ, link, mode
    return t


def build_tarball(w, path, t, form, bad, cut, base):
    """Writes the tarball; tells which files the package consists of, besides its DESCRIPTION."""
    n, m = t["pkg"], tar_marker(t)
    if path.is_dir():
        shutil.rmtree(path)
    elif path.exists():
        path.unlink()
    # the first and larger part is the same whatever the content is, and cannot be compressed
    files = {"data/noise": noise(base, 140000 if form != "big" else 300000) + m.encode(), "R/code.R": f"# {m}\n".encode(), "inst/pad": pad(m)}
    if form == "extra":
        files.update({"inst/empty": b"", "inst/a b/x.txt": b"x\n", "src/x.c": b"int x;\n" * 400, ".hidden": b"h"})
    if form == "long":
        files["inst/" + "d" * 60 + "/" + "e" * 70 + "/" + "f" * 80] = b"far down\n"
    desc = (f"{n}/DESCRIPTION", desc_lines(t, m).encode())
    ent = [(f"{n}/{k}", v) for k, v in files.items()]
    ent = ent + [desc] if form == "late" or h(base, "order") % 2 else [desc] + ent
    if form in ("dirs", "exec"):
        dirs = sorted({os.path.dirname(k) for k, _ in ent})
        ent = [(member(d + "/", tarfile.DIRTYPE, mode=0o755), None) for d in dirs] + [((member(k, mode=0o755) if form == "exec" else k), v) for k, v in ent]
    if form == "dot":
        ent = [("./" + k, v) for k, v in ent]
    up = "../" * 2
    evil = dict(dotdot=[("../evil1", b"x")], dotdot2=[(f"{n}/../../../evil2", b"x")], abs=[(str(w.root / "abs/evil3"), b"x")],
                symfile=[(member(f"{n}/lnk", tarfile.SYMTYPE, up + "../evil4"), None), (f"{n}/lnk", b"x")],
                symdir=[(member(f"{n}/lnk", tarfile.SYMTYPE, up + ".."), None), (f"{n}/lnk/evil5", b"x")],
                symabs=[(member(f"{n}/lnk", tarfile.SYMTYPE, str(w.root / "home")), None), (f"{n}/lnk/evil6", b"x")],
                hardlink=[(member(f"{n}/inst/evil7.lnk", tarfile.LNKTYPE, f"{n}/R/code.R"), None)],
                fifo=[(member(f"{n}/pipe", tarfile.FIFOTYPE), None)],
                deep=[("../" * 6 + str(w.root).lstrip("/") + "/evil8", b"x")],
                dup=[(f"{n}/R/code.R", b"# other\n")]).get(bad, [])
    k = cut * (len(ent) + 1) // 100
    ent = ent[:k] + evil + ent[k:] if bad != "dup" else ent + evil
    if bad == "nodesc":
        ent = [x for x in ent if x[0] != desc[0] and x[0] != "./" + desc[0] and getattr(x[0], "name", "") != desc[0]]
    if bad == "flat":
        ent = [(k.split("/", 1)[1], v) for k, v in [desc] + [(f"{n}/{k}", v) for k, v in files.items() if "/" not in k]]
    b = io.BytesIO()
    fmt = dict(pax=tarfile.PAX_FORMAT, gnu=tarfile.GNU_FORMAT, long=tarfile.GNU_FORMAT).get(form, tarfile.USTAR_FORMAT)
    with tarfile.open(fileobj=b, mode="w", format=fmt) as tf:
        for x, v in ent:
            ti = x if isinstance(x, tarfile.TarInfo) else tarfile.TarInfo(x)
            if v is not None:
                ti.size = len(v)
            if form == "pax":
                ti.pax_headers = dict(comment="made for a check", mtime="1600000000.123")
            tf.addfile(ti, io.BytesIO(v) if v is not None else None)
    raw = b.getvalue()
    if bad == "tartrunc":
        raw = raw[: 512 + (len(raw) - 12288) * cut // 100]
    if path.name.endswith(".xz"):
        data = lzma.compress(raw, preset=0)
    elif path.name.endswith(".bz2"):
        data = bz2.compress(raw)
    elif form == "multi":
        h_ = len(raw) // 2
        data = gzip.compress(raw[:h_], 1, mtime=0) + gzip.compress(raw[h_:], 1, mtime=0)
    else:
        data = gzip.compress(raw, 0 if form in ("stored", "big") else 1, mtime=0)
    if bad == "missing":
        return files
    if bad == "dir":
        path.mkdir()
        (path / n).mkdir()
        (path / n / "DESCRIPTION").write_bytes(desc[1])
        return files
    data = dict(empty=b"", garbage=noise("g", 5000), page=b"<html>not found</html>" * 20, trunc=data[: max(20, len(data) * cut // 100)]).get(bad, data)
    path.write_bytes(data)
    os.utime(path, (1.6e9, 1.6e9))
    return files


def outside(w):
    return outside_digest(w) + sorted(str(p.relative_to(w.root)) for p in w.root.rglob("evil*") if not p.name.endswith(".lnk"))


def tar_history(ctx, ix, s, V, rid):
    w = ctx.world()
    try:
        T0 = s["cfg"]["tarballs"]
        prepare(w, s)
        # every tarball has a path of its own, which stays
        ext = [(".tar.gz", ".tar.gz", ".tar.gz", ".tar.xz", ".tar.bz2", ".tar.gz")[h(s["key"], "ext", i) % 6] for i in range(len(T0))]
        paths = [w.proj / "given" / f"{t['pkg']}{ext[i]}" for i, t in enumerate(T0)]
        (w.proj / "given").mkdir()
        conf = dict(w.conf, tarball_paths=[str(p) if h(s["key"], "rel", i) % 2 else f"given/{p.name}" for i, p in enumerate(paths)])
        w.write_config(conf)
        cur, bad = [dict(t) for t in T0], [""] * len(T0)
        lines = []
        form = [("stored", "gz")[h(s["key"], i) % 2] for i in range(len(T0))]
        for i, t in enumerate(T0):
            w.files_of[tar_marker(t)] = build_tarball(w, paths[i], t, form[i], "", 0, (s["key"], i))
        for k, x in enumerate(V["f"]):
            for i, t0 in enumerate(T0):
                if not x["change"][i] and not (bad[i] and x["both"]) and k:
                    continue
                g = x["tars"][i]
                t = dict(t0, cid=f"#{g['cid']}")
                if g["ver"]:
                    v = [[0, 0, 1], [99, 1, 0]][g["ver"] - 1]
                    t.update(vn=v, ver=".".join(map(str, v)))
                if g["nodep"]:
                    t.update(dep=[], imp=[], lnk=[], sug=[])
                cur[i], bad[i] = t, g["bad"]
                form[i] = form[i] if g["same"] else g["form"]
                fs = build_tarball(w, paths[i], t, form[i], g["bad"], g["cut"], (s["key"], i))
                if not g["bad"]:
                    w.files_of[tar_marker(t)] = fs
            if not x["keep"]:
                shutil.rmtree(w.lib, ignore_errors=True)
            sc = dict(s, cfg=dict(s["cfg"], tarballs=[dict(t, bad=bool(b)) for t, b in zip(cur, bad)]))
            if x["cmd"] == "cut":
                _, total, _ = 0, 60, 0
                w.crash(["plan", *w.flags], 1 + x["at"] * total // 1001, "kill")
                continue
            before, ex0, out0 = lib_ents(w), w.lib.is_dir(), outside(w)
            res = w.run([x["cmd"], *w.flags])
            if res.outcome == "hang":
                ctx.hangs += 1
            lines.append(dict(e="run", cmd=x["cmd"], w=strip_world(sc, w), c=trace_cfg(sc), lib=before, ex=ex0, procs=w.procs, cont=bool(lines)))
            lines += event_lines(res, w)
            lines.append(dict(e="end", outcome=res.outcome, ex=w.lib.is_dir(), lib=lib_ents(w), outside0=out0, outside=outside(w)))
            if "goroutine " in res.text and "panic:" in res.text:
                lines[-1]["outcome"] = "crash"
        return lines
    finally:
        w.close()


def tar_runs(ctx, profile, n):
    S = [s for s in scenarios(ctx, "ProfTar", n)]
    V = tlc.generate("GenTar", profile, len(S), ctx.seed + 3)
    R = ctx.pool(S, lambda ix, s: tar_history(ctx, ix, s, V[ix], f"{profile}.{ix}"), what=profile)
    ctx.validate(f"tarballs:{profile}", "TraceInstall", [(f"{profile}.{ix}", R[ix], dict(kind="tarballs", scenario=S[ix], steps=V[ix])) for ix in sorted(R)])
