#!/usr/bin/env python3
"""Usage: check.py PROPERTY [--tier quick|thorough]; exit 0 held, 1 violation, other: the analysis could not decide."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa.ctx import run_check
from sa.facts import Broken

if __name__ == "__main__":
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    try:
        sys.exit(run_check(pid, tier, int(os.environ.get("VERIF_SEED", "1") or 1)))
    except Broken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        sys.exit(3)
    except Exception:
        import traceback
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s the analysis itself failed" % pid)
        sys.exit(3)
