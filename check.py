#!/usr/bin/env python3
"""python3 check.py C01 — decide one property (VERIF_TIER=quick|thorough, VERIF_SEED=n)."""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import vp


def main():
    prop = sys.argv[1]
    mod = importlib.import_module("checks." + prop.lower())
    ctx = vp.Ctx(prop, getattr(mod, "LEVEL", "model_checking"))
    try:
        rc = mod.run(ctx)
        if rc not in (0, 1):
            raise vp.ToolError(f"the check answered {rc}")
    except vp.ToolError as e:
        print("TOOL ERROR:", e)
        rc = ctx.broke_off(e) or 2
    except Exception as e:
        traceback.print_exc()
        rc = ctx.broke_off(e) or 2
    sys.stdout.flush()
    sys.exit(rc)


main()
