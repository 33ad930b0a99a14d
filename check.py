#!/usr/bin/env python3
"""check.py <property>: runs the check of one property (VERIF_SEED, VERIF_TIER from the environment)."""
import importlib, os, shutil, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib import vlib


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("checks." + prop.lower())
    run = vlib.Run(prop, tier, seed, getattr(mod, "LEVEL", "model_checking"))
    try:
        mod.check(run)
        rc = run.finish()
    except vlib.MachineryError as e:
        if os.environ.get("VERIF_KEEP"):
            print("work dir", run.work)
        else:
            shutil.rmtree(run.work, ignore_errors=True)
        print("MACHINERY ERROR: %s" % e)
        sys.exit(3)
    sys.exit(rc)


if __name__ == "__main__":
    main()
