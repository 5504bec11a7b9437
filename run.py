#!/usr/bin/env python3
"""run.py PROPERTY: decides one property on /repo's working tree.  VERIF_TIER=quick|thorough, VERIF_SEED."""
import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
sys.dont_write_bytecode = True
import core

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else core.TIER
    mod = importlib.import_module("check_" + prop)
    c = core.Check(prop, tier)
    try:
        mod.run(c)
        return c.finish()
    except core.Machinery as e:
        if c.violations:           # what was found before the machinery gave up still counts
            return c.finish()
        print("MACHINERY ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        if c.violations:
            return c.finish()
        return 2

sys.exit(main())
