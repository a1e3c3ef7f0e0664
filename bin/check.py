#!/usr/bin/env python3
"""bin/check.py PXX [--tier quick|thorough]: decides one property on /repo's working tree."""
import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "..", "lib"), os.path.join(HERE, "..", "checks")]
import vlib

def main():
    pid = sys.argv[1].upper()
    if "--tier" in sys.argv:
        os.environ["VERIF_TIER"] = sys.argv[sys.argv.index("--tier") + 1]
    mod = importlib.import_module(pid.lower())
    c = vlib.Check(pid, getattr(mod, "LEVEL", "model_checking"))
    try:
        mod.run(c)
        rc = c.finish()
    except vlib.CheckError as e:
        print("CHECK-ERROR %s: %s" % (pid, e))
        rc = 2
        if c.viol:      # what was established before the error stands
            rc = c.finish()
    except Exception:
        traceback.print_exc()
        rc = 3
    finally:
        c.cleanup()
    sys.exit(rc)

main()
