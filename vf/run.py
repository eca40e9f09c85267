"""run.py <property> [quick|thorough]: decides one property on /repo's current tree."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    run = Run(prop, tier, seed)
    try:
        if prop == "C20":
            import call_checks as mod
        elif prop <= "C10":
            import scene_checks as mod
        else:
            import geom_checks as mod
        mod.check(run)
    except Violation as v:
        run.close(1)
        report(prop, v.what, v.record)
        return 1
    except ToolError as e:
        run.close(0)
        print("ERROR: %s" % e, file=sys.stderr)
        return 2
    run.close(0)
    print("property %s held: %s" % (prop, {k: v for k, v in run.cov.items() if isinstance(v, int)}))
    return 0


if __name__ == "__main__":
    sys.exit(main())
