"""Environments of builds, secrets in outputs."""
import itertools
from common import *
from scen import *
from s_install import scenarios

CENSORED = ["GITHUB_TOKEN", "GITHUB_PAT", "GHE_TOKEN", "GHE_PAT", "AWS_ACCESS_KEY_ID", "AWS_SECRET_KEY"]


def envseq(pairs):
    return [dict(n=n, v=v) for n, v in pairs]


def path_value(w, kind):
    r = str(w.root / "rbin")
    base = "/usr/local/bin:/usr/bin:/bin"
    return {"plain": base, "led": f"{r}:{base}", "prefix": f"{r}-other:{base}", "second": f"/usr/bin:{r}:/bin", "slash": f"{base}:{r}"}[kind]


def env_runs(ctx, n):
    S = scenarios(ctx, "ProfEnv", n)
    V = tlc.generate("GenEnv", "ProfEnv", n, ctx.seed + 7)
    def one(ix, s):
        v = V[ix]
        w = ctx.world()
        rid = f"env.{ix}"
        try:
            s["penv"] = {k["pkg"]: {e["n"]: e["v"] for e in k["env"]} for k in v["cust"]}
            names = {"pa", "pb", "pc", "pd", "pe"} | {t["pkg"] for t in s["cfg"]["tarballs"]}
            s["penv"] = {p: e for p, e in s["penv"].items() if p in names}
            lib = h(s["key"], "lib") % 4
            if lib == 0:
                w.lib = w.proj / "li b=x"
            elif lib == 1:
                w.lib = w.proj / "lib=a"
            s["cfg"]["rellib"] = False
            prepare(w, s)
            w.env_extra = dict(w.env_extra, **{e["n"]: e["v"] for e in v["inh"]}, PATH=path_value(w, v["path"]))
            lines = []
            for args in ([["install"]] if ix % 5 else [["install"], ["run", "--pkg", v["run"]]]):
                log = (("--loglevel=debug",), ("--loglevel=trace", "--logjson"), ("--loglevel=info",))[ix % 3]
                res = w.run([*args, *(w.flags if args[0] == "install" else [])], log=log)
                inh = w.env()
                r = str(w.root / "rbin")
                p = inh.pop("PATH")
                lines.append(dict(e="env", inh=envseq(inh.items()), up=[dict(n=x, v=x.upper()) for x in inh], rdir=r, lib=str(w.lib),
                                  path=dict(led=p.split(":")[0] == r, v=p), cust=[dict(pkg=q, env=envseq(e.items())) for q, e in s["penv"].items()]))
                for e in res.events:
                    if e["ev"] in ("BS", "IS", "RUN"):
                        env = [x.partition("=") for x in e["env"]]
                        p = e.get("pkg", v["run"])
                        lines.append(dict(e="build", p=p, build=e["ev"] == "BS" and not e["dir"], user=e.get("rlibsuser", "empty"),
                                          env=envseq((a, b) for a, _, b in env)))
            return lines
        finally:
            w.close()
    R = ctx.pool(S, one, what="env")
    ctx.validate("env", "TraceEnv", [(f"env.{ix}", R[ix], dict(kind="env", scenario=S[ix], env=V[ix])) for ix in sorted(R)])


COMMANDS = [["install"], ["plan"], ["plan", "--show-deps"], ["inspect", "--deps"], ["inspect", "--deps", "--json"], ["load", "--all", "--json"], ["clean", "--all"], ["clean", "cache"],
            ["run"], ["add", "pz"], ["remove", "pz"], ["clean", "pkgdbs"], ["install", "--no-update"], ["add", "pa", "--install"]]
LEVELS = ["trace", "debug", "info", "warn", "error", "fatal", "panic"]


def variants(name):
    return [name, name.lower(), name.title(), "".join(c.lower() if i % 2 else c for i, c in enumerate(name))]


def secret_runs(ctx, n):
    """C22: every command at every log level, with token variables in several spellings; some builds print or fail
    with their whole environment."""
    S = scenarios(ctx, "ProfEnv", n)
    combos = list(itertools.product(LEVELS, (False, True), range(len(COMMANDS))))
    random.Random(ctx.seed).shuffle(combos)
    def one(ix, s):
        w = ctx.world()
        rid = f"secret.{ix}"
        try:
            s["penv"] = {"pa": {"FOO": "x"}, "pb": {"BAR": "y"}} if ix % 3 else {}
            conf_log = {}
            if ix % 2:
                conf_log = {"all": str(w.root / "log" / "all.log"), "install": str(w.root / "log" / "install.log"), "level": LEVELS[ix % 3], "overwrite": "true"}
                (w.root / "log").mkdir()
            prepare(w, s)
            if conf_log:
                w.conf["logging"] = conf_log
                w.write_config(w.conf)
            pol = policy_of(s)
            for j, p in enumerate(sorted(pol)):
                if (ix + j) % 3 == 0:
                    pol[p]["bf"] = 1
            secrets = {}
            for j, nme in enumerate(CENSORED):
                for q in variants(nme)[: 1 + (ix + j) % 4]:
                    val = f"s3cr3t{ix}x{j}{q}" + ["", "=x y", "/+=", "$#"][j % 4]
                    secrets[q] = val
            w.env_extra = dict(w.env_extra, **secrets)
            w.set_policy(pkgs=pol, echo=list(secrets) + ["FOO"], installed={p: "1.0" for p in pol})
            lines = [dict(e="env", inh=[], up=[], rdir="", lib="", path={}, cust=[])]
            count = 4 if ctx.tier == "quick" else 8
            for k in range(count):
                lv, js, c = combos[(ix * count + k) % len(combos)]
                if k == 0:
                    c = 0
                args = COMMANDS[c]
                res = w.run([*args, *(w.flags if args[0] in ("install", "plan") else [])], log=(f"--loglevel={lv}",) + (("--logjson",) if js else ()))
                texts = [("output", res.text)]
                for f in (w.root / "log").glob("*") if conf_log else []:
                    texts.append((f.name, f.read_text(errors="replace")))
                if (w.proj / "pkgr.yml").exists():
                    texts.append(("pkgr.yml", (w.proj / "pkgr.yml").read_text()))
                for where, t in texts:
                    # the value itself, or its JSON spelling
                    leaks = [q.upper() for q, val in secrets.items() if val in t or json.dumps(val)[1:-1] in t or f"s3cr3t{ix}x{CENSORED.index(q.upper())}{q}" in t]
                    lines.append(dict(e="output", where=f"{where} of {' '.join(args)} at {lv}{' json' if js else ''}", leaks=sorted(set(leaks))))
            return lines
        finally:
            w.close()
    R = ctx.pool(S, one, what="secret")
    ctx.validate("secret", "TraceEnv", [(f"secret.{ix}", R[ix], dict(kind="secret", scenario=S[ix])) for ix in sorted(R)])
