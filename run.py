#!/opt/venv/bin/python
"""run.py <property id> [--tier quick|thorough] : runs one check."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")

from lib import vf  # noqa

sys.path.insert(0, vf.REPO)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("harness." + pid.lower())
    ctx = vf.Ctx(pid, tier, seed)
    try:
        mod.run(ctx)
    except vf.MachineryError as e:
        print("MACHINERY ERROR:", e)
        ctx.finish(getattr(mod, "LEVEL", "model_checking"))
        return 2 if not ctx.viol else 1
    except BaseException as e:
        traceback.print_exc()
        if vf.in_repo(e):
            ctx.violation("the code under test raised an unexpected exception", vf.exc_info(e))
            return ctx.finish(getattr(mod, "LEVEL", "model_checking"))
        ctx.finish(getattr(mod, "LEVEL", "model_checking"))
        return 2 if not ctx.viol else 1
    return ctx.finish(getattr(mod, "LEVEL", "model_checking"))


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit_code = rc
    # run the scratch clean-up, then leave without waiting for stray threads
    vf._cleanup()
    os._exit(rc)
