#!/usr/bin/env python3
"""check.py <property> [quick|thorough]     decide one property on /repo's tree
   check.py replay <file>                   run a recorded violation again"""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
from vlib import *
import props


def main():
    if sys.argv[1] == "replay":
        return props.replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    scr = Scratch()
    try:
        out = props.run(scr, pid, tier, SEED)
    except Inconclusive as e:
        print("INCONCLUSIVE property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("INCONCLUSIVE property=%s internal error" % pid)
        return 2
    finally:
        scr.close()
    return props.report(pid, tier, SEED, out, time.time() - t0)


if __name__ == "__main__":
    sys.exit(main())
