#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]: decide one property."""
import os, sys, random, time, argparse
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import base


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    a = ap.parse_args()
    import checks
    f = checks.CHECKS.get(a.property)
    if not f:
        print("unknown property " + a.property)
        return 2
    base.TLC_LIMIT = 240 if a.tier == "quick" else 2400
    rep = base.Report(a.property, a.tier, a.seed)
    try:
        base.build()
        level, assumptions = f(rep, base.workdir(a.property + "-" + a.tier), random.Random(a.seed * 1000003 + 7), a.tier)
        if not rep.validated and rep.extra.get("undecided_runs"):
            raise base.ToolError("TLC decided nothing")
    except base.ToolError as e:
        print("TOOL ERROR: %s" % e)
        return 2
    return rep.finish(level, assumptions)


sys.exit(main())
