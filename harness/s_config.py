"""pkgr add / remove on configuration files."""
import yaml
from common import *
from scen import *

POOL = ["pa", "paa", "pa.b", "pb", "R6", "data.table", "Pa", "no", "p", "apa", "pab", "Packages", "null"]


def quoted(n, q):
    if q == 0 and n in ("no", "null"):
        q = 2
    return n if q == 0 else f"'{n}'" if q == 1 else f'"{n}"'


def block(entries, indent, always=False):
    L = []
    for e in entries:
        d = e["deco"]
        if d["above"] != "-":
            L.append(d["above"])
        if d["own"]:
            L += [" " * indent + "-", " " * (indent + 2) + quoted(e["name"], d["quote"]) + d["tail"]]
        else:
            L.append(" " * indent + "-" + " " * d["sp"] + quoted(e["name"], d["quote"]) + d["tail"])
    return L


def render(w, lay):
    L = []
    if lay["docstart"]:
        L.append("---")
    L.append("Version: 1")
    for s in lay["order"]:
        if lay["blanks"]:
            L.append("")
        if s == "Packages":
            k = lay["key"] + ":" + lay["keytail"]
            ent = lay["entries"]
            st = lay["style"]
            if st in ("block", "block2") and ent:
                L += [k] + block(ent, lay["indent"])
            elif st == "flow":
                L.append(f"{lay['key']}: [" + ", ".join(quoted(e["name"], e["deco"]["quote"]) for e in ent) + "]" + lay["keytail"])
            elif st == "flowml":
                L.append(f"{lay['key']}: [" + ",\n  ".join(quoted(e["name"], e["deco"]["quote"]) for e in ent) + "]" + lay["keytail"])
            elif st in ("block", "block2", "null"):
                L.append(k)
            elif st == "tilde":
                L.append(f"{lay['key']}: ~{lay['keytail']}")
            elif st == "nullw":
                L.append(f"{lay['key']}: null{lay['keytail']}")
            elif st == "empty":
                L.append(f"{lay['key']}: []{lay['keytail']}")
        elif s == "Repos":
            L += ["Repos:", f"  - RA: {w.repo_url(dict(name='RA'))}"]
        elif s == "Ignore":
            # nothing that is offered, or the plan would miss it
            L += ["IgnorePackages:"] + [f"  - zz{e['name']}" for e in lay["ignore"]] + ["  - zzz"]
        elif s == "Custom":
            L += ["Customizations:", "  Packages:"]
            for c in lay["cust"] or ["pa"]:
                L += [f"    - {quoted(c, 0)}:", "        Suggests: false"]
        elif s == "Suggests":
            L.append("Suggests: false # pa")
        elif s == "Threads":
            L.append("Threads: 2")
        elif s == "NoUpdate":
            L.append("NoUpdate:   true")
        elif s == "Logging":
            L += ["Logging:", "  level: debug"]
        elif s == "Tarballs":
            L += ["Descriptions:", "  - pa/DESCRIPTION"]
        elif s == "Comment":
            L += ["# Packages:", "#  - pa"] + (["# ünï – pa"] if lay["uni"] else [])
    L += [f"Library: {w.lib}", f"Cache: {w.cache}", f"RPath: {w.root}/rbin/R"] if len(lay["order"]) % 2 else []
    if not len(lay["order"]) % 2:
        L[1 if lay["docstart"] else 0:1 if lay["docstart"] else 0] = [f"Library: {w.lib}", f"Cache: {w.cache}", f"RPath: {w.root}/rbin/R"]
    if lay["endcomment"]:
        L.append(lay["endcomment"])
    t = "\n".join(L) + ("" if lay["nofinal"] else "\n")
    return t.replace("\n", "\r\n") if lay["crlf"] else t


def meaning(text):
    """See ConfigFile.tla."""
    raw = hashlib.sha1(text.encode()).hexdigest()
    res = dict(ok=False, pkgs=[], has=False, rest=[], raw=raw)
    t = text.replace("\r\n", "\n")
    try:
        root = yaml.compose(t)
        if not isinstance(root, yaml.MappingNode):
            return res
    except yaml.YAMLError:
        return res
    key = val = None
    for k, v in root.value:
        if k.value.strip().lower() == "packages":
            key, val = k, v
    lines = t.split("\n")
    drop, subst = set(), {}
    if key is not None:
        res["has"] = True
        if isinstance(val, yaml.SequenceNode):
            for e in val.value:
                if not isinstance(e, yaml.ScalarNode):
                    return res
                res["pkgs"].append(e.value)
            if val.flow_style:
                subst[key.start_mark.line] = "<packages>" + " ".join(lines[val.end_mark.line][val.end_mark.column:].split())
                drop |= set(range(key.start_mark.line + 1, val.end_mark.line + 1))
            else:
                for e in val.value:
                    first = e.start_mark.line
                    while not lines[first].strip().startswith("-"):
                        first -= 1
                    drop |= set(range(first, e.end_mark.line + 1))
        elif val.tag == "tag:yaml.org,2002:null":
            subst[key.start_mark.line] = "<packages>" + " ".join(lines[key.start_mark.line].partition("#")[1:][0:2] if "#" in lines[key.start_mark.line] else "")
        else:
            return res
        if key.start_mark.line not in subst or not isinstance(val, yaml.SequenceNode):
            c = lines[key.start_mark.line]
            subst[key.start_mark.line] = "<packages>" + (c[c.index("#"):].strip() if "#" in c else "")
    for i, l in enumerate(lines):
        if i in subst:
            res["rest"].append(subst[i])
        elif i not in drop and l.strip():
            res["rest"].append(l.rstrip())
    res["ok"] = True
    return res


def config_runs(ctx, n):
    S = tlc.generate("GenConfig", "ProfConfig", n, ctx.seed)
    def one(ix, s):
        w = ctx.world()
        rid = f"config.{ix}"
        try:
            rec = lambda p: dict(pkg=p, ver="1.0", vn=[1, 0], dep=[], imp=[], lnk=[], sug=[], rc=dict(op="none"), path="")
            w.publish(dict(name="RA", src=[rec(p) for p in POOL], bin=[]))
            w.set_policy()
            (w.proj / "pa").mkdir()
            (w.proj / "pa/DESCRIPTION").write_text("Package: projpa\nVersion: 1.0\n")
            cfgname = ["pkgr.yml", "my conf.yml", "sub/dir/c.yml"][h(ix, ctx.seed) % 3]
            f = w.proj / cfgname
            f.parent.mkdir(parents=True, exist_ok=True)
            (f.parent / "pa").mkdir(exist_ok=True)
            (f.parent / "pa/DESCRIPTION").write_text("Package: projpa\nVersion: 1.0\n")
            text = render(w, s["lay"])
            linked = h(ix, "link") % 5 == 0
            if linked:
                real = w.root / "elsewhere" / "real.yml"
                real.parent.mkdir()
                f.symlink_to(os.path.relpath(real, f.parent) if ix % 2 else real)
            perm = [0o644, 0o600, 0o664][h(ix, "perm") % 3]
            f.write_bytes(text.encode())
            f.chmod(perm)

            def look(f):
                try:
                    g = meaning(f.read_bytes().decode())
                except OSError as e:
                    return dict(meaning(""), rest=[str(e)])
                if f.is_symlink() != linked:
                    g["rest"].append("a link to the configuration was replaced")
                if f.stat().st_mode & 0o777 != perm:
                    g["rest"].append("the configuration's permissions changed")
                return g
            first = meaning(text)
            if not first["ok"]:
                raise HarnessError(f"generated configuration is not valid:\n{text}")
            lines = [dict(e="file", f=first)]
            # layouts a line editor may decline
            odd = s["lay"]["style"] == "flowml" or any(e["deco"]["own"] for e in s["lay"]["entries"])
            texts = [text]
            for j, op in enumerate(s["ops"]):
                cwd, conf = [(w.proj, str(f)), (w.proj, cfgname), (f.parent, f.name), (w.root, "proj/" + cfgname)][h(ix, j) % 4]
                args = ["--config", conf, op["op"], *op["names"]]
                # the same edit, killed or with a failing disk, at one or two of its changes
                for k in range(h(ix, j, "cuts") % 3):
                    mode = ["kill", "torn", "after", "fail1", "enospc"][h(ix, j, k, "mode") % 5]
                    at = 1 + h(ix, j, k, "at") % 6
                    res, total, _ = w.crash(args, at, mode, config=None, cwd=cwd)
                    lines.append(dict(e="cut", op=op["op"], names=op["names"], f=look(f), outcome=res.outcome, at=at, mode=mode, total=total))
                before = {p.name: tree_digest(p) for p in f.parent.iterdir() if p != f}
                res = w.run(args, config=None, cwd=cwd)
                texts.append(f.read_bytes().decode())
                g = look(f)
                if {p.name: tree_digest(p) for p in f.parent.iterdir() if p != f} != before:
                    g["rest"].append("files beside the configuration changed")
                lines.append(dict(e="edit", op=op["op"], names=op["names"], f=g, outcome=res.outcome, odd=odd))
            res = w.run(["--config", str(f), "plan"], config=None)
            users = sorted(m["pkg"] for m in res.msgs("package repository set") if m.get("relationship") == "user_defined")
            lines.append(dict(e="read", outcome=res.outcome, users=users, raw=hashlib.sha1(f.read_bytes()).hexdigest()))
            s["texts"] = texts
            return lines
        finally:
            w.close()
    R = ctx.pool(S, one, what="config")
    ctx.validate("config", "TraceConfig", [(f"config.{ix}", R[ix], dict(kind="config", scenario=S[ix])) for ix in sorted(R)])
