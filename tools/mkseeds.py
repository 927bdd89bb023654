#!/usr/bin/env python3
"""tools/mkseeds.py [ID...]: writes /verif/seeded/<id>/ from the definitions in seeds/*.py (one file per planted bug)."""
import importlib.util, json, shutil, subprocess, sys, tempfile
from pathlib import Path
HERE = Path(__file__).parent
OUT = HERE.parent / "seeded"
BASE = subprocess.run("git -C /repo log --format=%H --reverse | head -1", shell=True, stdout=subprocess.PIPE, text=True).stdout.strip()
if len(sys.argv) > 1:
    ids = sys.argv[1:]
else:
    ids = sorted(p.stem for p in (HERE / "seeds").glob("*.py"))


def lines_of_fixes(f):
    r = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", f], stdout=subprocess.PIPE, text=True).stdout.split("\n")
    return {i + 1 for i, l in enumerate(r) if l and not (l.startswith("^") or l.split()[0] == BASE)}


for sid in ids:
    spec = importlib.util.spec_from_file_location(sid, HERE / "seeds" / f"{sid}.py")
    src = (HERE / "seeds" / f"{sid}.py").read_text()
    head, demo = src.split("# --- demo ---\n", 1)
    ns = {}
    exec(head, ns)
    with tempfile.TemporaryDirectory(dir="/tmp") as t:
        subprocess.run(["git", "clone", "-q", "/repo", t + "/r"], check=True)
        for f, old, new in ns["EDITS"]:
            p = Path(t, "r", f)
            s = p.read_text()
            if s.count(old) != 1:
                sys.exit(f"{sid}: {f}: {s.count(old)} places for {old!r}")
            p.write_text(s.replace(old, new))
        subprocess.run("PATH=$PATH:/usr/local/go/bin; gofmt -l . >/dev/null", shell=True, cwd=t + "/r")
        diff = subprocess.run(["git", "diff"], cwd=t + "/r", stdout=subprocess.PIPE, text=True).stdout
        diff0 = subprocess.run(["git", "diff", "-U0"], cwd=t + "/r", stdout=subprocess.PIPE, text=True).stdout
    f, bad, removed = None, [], 0
    for l in diff0.split("\n"):
        if l.startswith("--- a/"):
            f = l[6:]
            mine = lines_of_fixes(f)
        if l.startswith("@@"):
            a = l.split()[1][1:].split(",")
            n = int(a[1]) if len(a) > 1 else 1
            removed += n
            bad += [f"{f}:{i}" for i in range(int(a[0]), int(a[0]) + n) if i in mine]
    if bad:
        sys.exit(f"{sid}: changes lines of fixes: {bad}")
    if not removed:
        sys.exit(f"{sid}: changes no original line")
    d = OUT / sid
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir(parents=True)
    (d / "patch.diff").write_text(diff)
    (d / "demo.sh").write_text('#!/bin/sh\nexec python3 "$(dirname "$0")/demo.py"\n')
    (d / "demo.py").write_text("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom demolib import *\n\nbuild()\n" + demo)
    shutil.copy(HERE / "demolib.py", d / "demolib.py")
    (d / "meta.json").write_text(json.dumps(dict(property=ns["PROP"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), indent=1) + "\n")
    print(sid, "written", flush=True)
