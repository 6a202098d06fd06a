"""python -m pxv.replay FILE - runs a saved failing case again, without the generator."""
import base64
import importlib
import json
import os
import pickle
import sys


def main(path):
    rec = json.load(open(path))
    want = 'true' if rec['backend'] == 'std' else 'false'
    if os.environ.get('FORCE_STD_XML') != want:
        os.environ.update(FORCE_STD_XML=want, PYTHONHASHSEED='0')
        os.execv(sys.executable, [sys.executable, '-m', 'pxv.replay', path])
    from . import env
    env.setup()
    from . import core, live
    mod = importlib.import_module('pxv.checks.' + rec['property'].lower())
    if rec['part'].startswith('probe:'):
        msg = mod.PROBES[rec['part'][6:]]()
        print(msg or 'does not fail any more')
        return 1 if msg else 0
    part = [p for p in list(mod.parts()) + list(getattr(mod, 'fixed_parts', lambda: [])()) if p.name == rec['part']][0]
    case = pickle.loads(base64.b64decode(rec['case']))
    try:
        core.run_one(part, case, core.Tally())
    except live.Violation as v:
        print(core.describe(v, case))
        return 1
    print('does not fail any more')
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
