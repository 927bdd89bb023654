"""python3 harness/check.py <ID> [--tier quick|thorough] [--replay FILE]"""
import argparse, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import registry
import designs


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--only", default="", help="suites whose name contains this")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED") or "1")
    ctx = Ctx(a.prop, a.tier, seed, 600 if a.tier == "quick" else 3 * 3600)
    try:
        build()
        for name, fn in registry.CHECKS[a.prop]["suites"]:
            if a.only and a.only not in name:
                continue
            fn(ctx)
        if a.only in ("", "designs") and "VERIF_SCALE" not in os.environ:
            designs.run(ctx)
        sys.exit(finish(ctx, registry.CHECKS[a.prop]["level"]))
    except HarnessError as e:
        # a violation already recorded stands, whatever stopped the rest
        if ctx.violations:
            print(f"(the rest of the check did not run: {e})")
            sys.exit(finish(ctx, registry.CHECKS[a.prop]["level"]))
        print(f"check of {a.prop} could not be carried out: {e}", file=sys.stderr)
        sys.exit(2)


if __name__ == "__main__":
    main()
