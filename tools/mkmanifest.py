#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from harness/registry.py."""
import json, sys, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + "/harness")
import registry, designs
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
checks = []
for i in ids:
    if i not in registry.CHECKS:
        continue
    c = registry.CHECKS[i]
    checks.append(dict(property=i, quick_cmd=f"python3 harness/check.py {i} --tier quick", thorough_cmd=f"python3 harness/check.py {i} --tier thorough",
                       evidence_file=f"evidence/{i}.json", technique=registry.TECHNIQUE + "; " + "design model checked exhaustively: " + ", ".join(dict.fromkeys(d[1] for d in designs.DESIGNS[i])), level=c["level"], level_note=c.get("note", registry.NOTE)))
na = [dict(property=i, reason=registry.NOT_APPLICABLE.get(i, "no check yet")) for i in ids if i not in registry.CHECKS]
m = dict(version=1, setup_cmd="python3 harness/setup.py", checks=checks, not_applicable=na,
         hooks=dict(guard="none", enable="no hooks: the checks drive the unmodified pkgr binary built from /repo", source_commits=[]),
         notes="TLA+ specifications in spec/, checked with TLC; recorded runs of the real binary (fake R, loopback HTTP, scratch directories) are checked against them. Fixes are listed in known-findings.txt.")
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
