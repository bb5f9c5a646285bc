import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    import logging

    import common
    sys.setrecursionlimit(20000)
    try:
        import comb_spec_searcher  # noqa: F401  (sets logzero's level itself)
        import logzero
        logzero.loglevel(logging.CRITICAL)
        mod = importlib.import_module("drv_" + pid.lower())
        chk = common.Check(pid, tier)
        mod.run(chk)
        rc = chk.finish()
    except (Exception, common.CaseTimeout):  # machinery failure: never a verdict
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


main()
