#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current working tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from families import FAMILY


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        chk = vlib.Check(prop, tier, seed)
        importlib.import_module("fam_" + FAMILY[prop]).run(chk)
        rc = chk.finish()
        vlib.log("%s %s: %s in %.1fs (model %d states, %d traces, %d trace states)" % (
            prop, tier, "VIOLATED" if rc else "held", vlib.time.time() - chk.t0, chk.cov["states"],
            chk.cov["traces_validated_against_impl"], chk.cov["trace_states"]))
    except vlib.CheckError as e:
        vlib.log("CHECK-ERROR %s: %s" % (prop, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        vlib.cleanup()
    sys.exit(rc)


main()
