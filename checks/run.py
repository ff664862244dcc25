#!/usr/bin/env python3
"""python3 checks/run.py C01 : decides one property on the current tree.
VERIF_SEED and VERIF_TIER (quick, thorough) select the workload."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import lib, props


def main():
    prop = sys.argv[1]
    c = lib.Check(prop)
    try:
        rc = props.run(c)
    except lib.Inconclusive as e:
        print("INCONCLUSIVE property=%s %s" % (prop, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.exit(main())
