#!/usr/bin/env python3
"""python3 check.py <property> : decides one property on /repo's current tree.
exit 0: holds, 1: violated (VIOLATION line), 3: the analysis could not decide."""
import importlib, os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.setrecursionlimit(20000)
import program
from report import Report, finish
from registry import PROPS


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    mod, explanation = PROPS[pid]
    if tier == "thorough":
        import absint
        absint.Exec.LIMIT = 16
    rep = Report(pid)
    try:
        prog = program.load()
        m = importlib.import_module(mod)
        getattr(m, pid)(prog, rep, tier)
        rc = finish(rep, "other", explanation, tier)
    except program.Broken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, e))
        if rep.viol:
            print("(violations found before the analysis stopped:)")
            rc = finish(rep, "other", explanation, tier)
            return rc if rc == 1 else 3
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s: internal error" % pid)
        return 3
    return rc


sys.exit(main())
