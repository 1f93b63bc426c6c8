#!/usr/bin/env python3
"""bin/check.py PROPERTY [quick|thorough]: decide one property on /repo's working tree."""
import importlib
import os
import shutil
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.dont_write_bytecode = True
import vlib  # noqa: E402


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    import props
    c = vlib.Check(pid)
    try:
        props.CHECKS[pid](c)
        rc = c.finish()
    except Exception as ex:  # an error of the check, never a verdict
        if not isinstance(ex, vlib.CheckError):
            traceback.print_exc()
        print("ERROR: %s could not be decided: %s" % (pid, str(ex)[:3000]))
        rc = 2
        if c.violations:
            rc = c.finish()
    finally:
        shutil.rmtree(c.work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


main()
