#!/usr/bin/env python3
"""check.py PROPERTY   decides one property (VERIF_TIER, VERIF_SEED)"""
import importlib, os, signal, sys, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
import vlib

def main():
    prop = sys.argv[1].upper()
    try:
        mod = importlib.import_module(prop.lower())
        c = vlib.Check(prop, getattr(mod, "LEVEL", "model_checking"))
        mod.run(c)
        rc = c.finish()
    except vlib.CheckError as e:
        print("ERROR %s: %s" % (prop, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    vlib.cleanup()
    return rc

if __name__ == "__main__":
    signal.signal(signal.SIGTERM, lambda *a: (vlib.cleanup(), os._exit(3)))
    sys.exit(main())
