"""python -m pxv.probe ID KEY - exit 1 while the finding is there, 0 once it is gone."""
import importlib
import sys

from . import env

if __name__ == '__main__':
    env.setup()
    mod = importlib.import_module('pxv.checks.' + sys.argv[1].lower())
    msg = mod.PROBES[sys.argv[2]]()
    if msg:
        print(msg)
        sys.exit(1)
