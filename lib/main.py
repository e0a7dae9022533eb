import importlib
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.path.insert(0, os.path.join(os.path.dirname(here), "checks"))
import boot  # noqa

import vp  # noqa


def run():
    pid = sys.argv[1]
    boot.import_regrid()
    module = importlib.import_module(pid.lower())
    return vp.main(pid, sys.argv[2:], module)


if __name__ == "__main__":
    try:
        rc = run()
    except SystemExit:
        raise
    except BaseException as e:
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    # background threads of the code under test must not delay or change the outcome
    try:
        import atexit
        atexit._run_exitfuncs()
    except Exception:
        pass
    os._exit(rc)
