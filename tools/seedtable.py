#!/usr/bin/env python3
"""tools/seedtable.py [ID...] [--seed N] [--jobs N]: runs, for each planted bug, its property's quick check against a
scratch copy of /repo with the bug applied, and prints a line  <bug> caught|MISSED <suites that reported it>."""
import json, os, re, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
TOP = Path(__file__).resolve().parent.parent
REPO = os.environ.get("VERIF_REPO", "/repo")


def opt(name, default):
    return sys.argv[sys.argv.index(name) + 1] if name in sys.argv else default


def one(sid):
    d = Path(tempfile.mkdtemp(prefix="seedtable-", dir="/tmp"))
    try:
        r = d / "repo"
        shutil.copytree(REPO, r, symlinks=True)
        x = subprocess.run(["git", "apply", str(TOP / "seeded" / sid / "patch.diff")], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if x.returncode:
            return f"{sid} DOES-NOT-APPLY"
        prop = json.load(open(TOP / "seeded" / sid / "meta.json"))["property"]
        e = dict(os.environ, VERIF_REPO=str(r), VERIF_OUT=str(d / "out"), VERIF_BUILD=str(d / "build"), VERIF_SEED=opt("--seed", "1"), VERIF_TIER="quick")
        (d / "out").mkdir()
        x = subprocess.run([sys.executable, "harness/check.py", prop], cwd=TOP, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        n = {}
        for m in re.finditer(r"^VIOLATION property=\S+ replay=\S+ \((\S+)", x.stdout, re.M):
            n[m[1]] = n.get(m[1], 0) + 1
        return f"{sid} {'caught' if x.returncode == 1 and n else 'MISSED rc=%d %s' % (x.returncode, x.stdout[-300:])} {prop} " + " ".join(f"{k}({v})" for k, v in sorted(n.items(), key=lambda a: -a[1]))
    finally:
        shutil.rmtree(d, ignore_errors=True)


skip = {opt("--seed", None), opt("--jobs", None)}
ids = [a for a in sys.argv[1:] if not a.startswith("--") and a not in skip] or sorted(p.name for p in (TOP / "seeded").iterdir())
with ThreadPoolExecutor(int(opt("--jobs", "2"))) as ex:
    for line in ex.map(one, ids):
        print(line, flush=True)
