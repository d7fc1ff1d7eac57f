#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's working tree. Exit 0 held, 1 violated, 2 no answer."""
import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vlib, stages

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    ctx = vlib.Ctx(prop, tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    try:
        check = stages.CHECKS[prop]
        check["run"](ctx)
        return ctx.finish(check["level"], check["assumptions"], {"bounds": check["bounds"]})
    except vlib.Infra as e:
        print("no answer:", e, file=sys.stderr)
        if ctx.violations:
            return ctx.finish("other", [], {"explanation": "ended early: %s" % e})
        return 2
    finally:
        shutil.rmtree(ctx.work, ignore_errors=True)

sys.exit(main())
