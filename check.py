#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property; see DESIGN.md."""
import os, sys, shutil, importlib, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from lib import vf
from checks import REGISTRY


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod, fn = REGISTRY[pid]
    ctx = vf.Ctx(pid, tier, seed)
    try:
        getattr(importlib.import_module("checks." + mod), fn)(ctx)
        return vf.finish(ctx)
    except Exception as e:
        if isinstance(e, vf.CheckError):
            print("CHECK-ERROR %s: %s" % (pid, e))
        else:
            traceback.print_exc()
        # what was found before the check itself gave up is still a violation
        return (ctx.viol and vf.finish(ctx)) or 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", ctx.work)
        else:
            shutil.rmtree(ctx.work, ignore_errors=True)


sys.exit(main())
