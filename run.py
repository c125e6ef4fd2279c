#!/opt/veriftools/pyvenv/bin/python
"""Run the check of one property: run.py <id>. VERIF_SEED and VERIF_TIER as in the task."""
import importlib
import os
import shutil
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.dont_write_bytecode = True
import common  # noqa


def main():
    prop = sys.argv[1]
    if prop == "setup":
        print(common.build_harness(), common.build_libmgen())
        return
    try:
        rc = importlib.import_module(prop.lower()).main()
    except Exception:
        traceback.print_exc()
        rc = 3
    finally:
        if os.path.isdir(common.BUILD):
            for d in os.listdir(common.BUILD):
                if d.startswith("s-%d-" % os.getpid()):
                    shutil.rmtree(os.path.join(common.BUILD, d), ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


main()
