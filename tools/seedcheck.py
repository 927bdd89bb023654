#!/usr/bin/env python3
"""tools/seedcheck.py ID...: confirms planted bugs in scratch copies: the patch applies, builds, passes the
stable tests; the demonstration passes without it and fails with it."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
SEED = Path(__file__).resolve().parent.parent / "seeded"
STABLE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def stable_names(b):
    for k in ("stable", "passed", "tests", "stable_tests", "pass"):
        if isinstance(b, dict) and k in b:
            return set(b[k])
    return set(b)


def one(sid):
    d = Path(tempfile.mkdtemp(prefix="seed-", dir="/tmp"))
    try:
        r = d / "repo"
        shutil.copytree("/repo", r, symlinks=True)
        demo = d / "demo"
        shutil.copytree(SEED / sid, demo)
        for f in list(demo.glob("*.diff")) + [demo / "meta.json"]:
            f.unlink(missing_ok=True)
        x = sh(f"timeout 300 bash {demo}/demo.sh", cwd=r)
        if x.returncode != 0:
            return sid, "demo fails on the unchanged tree:\n" + x.stdout[-1500:]
        x = sh(f"git apply {SEED / sid}/patch.diff", cwd=r)
        if x.returncode:
            return sid, "does not apply: " + x.stdout
        x = sh(". /opt/vp/env.sh; go build ./...", cwd=r, executable="/bin/bash")
        if x.returncode:
            return sid, "does not build: " + x.stdout
        x = sh(f"timeout 300 bash {demo}/demo.sh", cwd=r)
        if x.returncode == 0:
            return sid, "demo passes with the patch"
        why = x.stdout.strip().split("\n")[-1]
        if "--notests" not in sys.argv:
            t = Path("/opt/vp/test.sh").read_text().replace("cd /repo", f"cd {r}")
            e = Path("/opt/vp/each.py").read_text().replace('"/repo"', f'"{r}"').replace("'/repo'", f"'{r}'")
            (d / "each.py").write_text(e)
            (d / "test.sh").write_text(t.replace("/opt/vp/each.py", str(d / "each.py")))
            x = sh(f"bash {d}/test.sh {d}/out.json", cwd=r)
            res = json.load(open(d / "out.json"))
            bad = [n for n in stable_names(STABLE) if n not in stable_names(res)]
            if bad:
                return sid, f"breaks {len(bad)} stable tests: {bad[:5]}"
        return sid, "OK: " + why
    finally:
        shutil.rmtree(d, ignore_errors=True)


ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(p.name for p in SEED.iterdir())
with ThreadPoolExecutor(3) as ex:
    for sid, v in ex.map(one, ids):
        print(sid, v, flush=True)
