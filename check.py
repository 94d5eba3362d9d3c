#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on the current tree of /repo."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vlib"))
import common
from common import Check, Broken

LEVELS = {}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else common.TIER
    c = Check(prop, tier, "model_checking")
    try:
        if prop in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10"):
            import checks_runtime
            checks_runtime.check(c, prop)
        else:
            mod = __import__("check_" + prop.lower())
            mod.check(c)
        rc = c.finish()
    except Broken as e:
        # what was found before the machinery gave up still counts
        if c.violations:
            rc = c.finish()
        else:
            print("BROKEN %s: %s" % (prop, e))
            rc = 2
    except Exception:
        traceback.print_exc()
        rc = c.finish() if c.violations else 2
    finally:
        common.cleanup()
    sys.stdout.flush()
    sys.exit(rc)


main()
