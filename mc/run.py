import sys, os
sys.dont_write_bytecode = True
from mc import core
import importlib


def load(pid):
    from mc import loader
    mod = importlib.import_module('checks.' + pid.lower())
    return mod


if __name__ == '__main__':
    rc = 2
    try:
        rc = core.main(load(sys.argv[1]))
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
