#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property on /repo's current source."""
import importlib, os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import engine
import facts
from spec import Check


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    c = None
    try:
        F = facts.load()
        if F.diag["errors"]:
            raise facts.AnalysisBroken("source does not parse: " + "; ".join(F.diag["errors"][:3]))
        F.load_s = time.time() - t0
        c = Check(pid, F, tier, int(os.environ.get("VERIF_SEED", "1")))
        if tier == "thorough":
            engine.MAXSTATES = 120      # paths kept apart before their facts are intersected
        m = importlib.import_module(pid.lower())
        m.run(c)
        if c.obs == 0:
            raise facts.AnalysisBroken("no obligation was generated")
        rc = c.finish()
        print("%s: %d obligations, %d discharged, %d functions analysed, %.1f s" % (pid, c.obs, c.ok, len(c.fns), time.time() - t0))
        sys.exit(rc)
    except Exception as e:
        if not isinstance(e, facts.AnalysisBroken):
            traceback.print_exc()
        if c is not None and c.viol and c.finish():
            sys.exit(1)     # what was decided before stands
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, e))
        sys.exit(3)


main()
