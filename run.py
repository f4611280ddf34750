#!/usr/bin/env python3
"""python3 run.py <property id>: run one check (VERIF_TIER=quick|thorough, VERIF_SEED=n)."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import core, build


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    mod = importlib.import_module("checks." + pid)
    ctx = core.Ctx(pid)
    try:
        ctx.log("building the library from %s (found earlier build: %s)" %
                (build.REPO, os.path.exists(os.path.join(build.OUT, "libct.so"))))
        build.build_lib()
        ctx.log("library built")
        mod.run(ctx)
        rc = core.finish(ctx)
    except (core.CheckError, build.BuildError) as e:
        if ctx.violations:     # an answer was already established
            rc = core.finish(ctx)
        else:
            print("CHECK ERROR:", e)
            ctx.close()
            rc = 3
    except Exception:
        traceback.print_exc()
        ctx.close()
        rc = 3
    ctx.log("exit", rc)
    sys.exit(rc)


main()
