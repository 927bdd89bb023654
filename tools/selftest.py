#!/usr/bin/env python3
"""tools/selftest.py CORRUPTIONS CHECK...: runs checks, corrupts what they recorded, and tells for every field how
many of the corruptions the specification of that check rejects.  A field that is never rejected is one that the
property does not speak of, or that its specification overlooks."""
import os, subprocess, sys, tempfile
from pathlib import Path
R = Path(__file__).resolve().parent.parent
n, ids = sys.argv[1], sys.argv[2:]
for i in ids:
    d = tempfile.mkdtemp(prefix="selftest-")
    out = Path(d) / "report"
    r = subprocess.run([sys.executable, str(R / "harness/check.py"), i], env=dict(os.environ, VERIF_SELFTEST=n, VERIF_SELFTEST_OUT=str(out), VERIF_OUT=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print("##", i, r.returncode, r.stdout.strip().split("\n")[-1][:200])
    if out.exists():
        print(out.read_text(), end="")
    subprocess.run(["rm", "-rf", d])
