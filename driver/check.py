#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]     decides one property
   check.py replay <file>                           shows one replay file again"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, checks


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a[0] == "replay":
        return checks.replay(a[1])
    if a[0] == "build":
        core.build()
        return 0
    ctx = core.Ctx(a[0], tier, seed)
    try:
        core.build()
        try:
            checks.CHECKS[a[0]](ctx)
        except core.Enough:
            pass
        return core.finish(ctx, "model_checking")
    except core.ToolError as e:
        print(f"TOOL ERROR: {e}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()


sys.exit(main())
