#!/usr/bin/env python3
"""check.py <property id> [quick|thorough] -- decide one property against /repo's working tree (see DESIGN.md)"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vt import core


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    try:
        mod = importlib.import_module("vt.checks." + pid.lower())
        chk = core.Check(pid, tier, seed)
        mod.run(chk)
        rc = chk.finish()
    except core.CheckError as e:
        print("CHECK-ERROR property=%s %s" % (pid, e), file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


main()
