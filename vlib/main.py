import importlib
import sys
import os

# the real code under test, and the libraries it depends on
if '/opt/venv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/venv/lib/python3.12/site-packages')


def entry():
    if len(sys.argv) < 2:
        print('usage: check <property> [quick|thorough]')
        return 2
    pid = sys.argv[1]
    from . import harness
    mod = importlib.import_module('checks.' + pid.lower())
    return harness.main(mod.R, sys.argv[2:])


if __name__ == '__main__':
    rc = entry()
    sys.stdout.flush()
    os._exit(rc)
