"""python -m pxv.worker ID TIER SEED SHARD NSHARDS OUT - one process, one backend."""
import importlib
import json
import os
import resource
import sys
import traceback


def main(argv):
    cid, tier, sd, shard, nshards, out = argv[0], argv[1], int(argv[2]), int(argv[3]), int(argv[4]), argv[5]
    gb = 1 << 30
    resource.setrlimit(resource.RLIMIT_AS, (12 * gb, 12 * gb))
    sys.setrecursionlimit(3000)
    from . import env
    env.setup()
    from . import core, live
    std = os.environ.get('FORCE_STD_XML', 'false') == 'true'
    res = {'status': 'ok', 'backend': 'std' if std else 'lxml', 'shard': shard}
    T = core.Tally()
    try:
        mod = importlib.import_module('pxv.checks.' + cid.lower())
        fail = None
        parts = [p for p in mod.parts() if res['backend'] in p.backends]
        for p in getattr(mod, 'fixed_parts', lambda: [])():
            if res['backend'] not in p.backends:
                continue
            for i, case in enumerate(p.cases):
                if i % nshards != shard:
                    continue
                T.evaluations += 1
                T.count('part:' + p.name)
                try:
                    core.run_one(p, case, T)
                except live.Violation as v:
                    import base64
                    import pickle
                    blob = pickle.dumps(case)
                    fail = dict(size=len(blob), blob=base64.b64encode(blob).decode(), what=v.what,
                                text=core.describe(v, case), part=p.name)
                    break
            if fail:
                break
        if not fail:
            scale = float(os.environ.get('PXV_SCALE', '1'))
            for i, p in enumerate(parts):
                fail = core.run_part(p, i + (31 if std else 0), tier, sd * 101 + shard, T, scale)
                if fail:
                    break
        if fail:
            fail.pop('t', None)
            res.update(status='violation', failure=fail)
    except BaseException:
        res.update(status='error', error=traceback.format_exc()[-8000:])
    res.update(evaluations=T.evaluations, counts=T.counts, keys=sorted(T.keys), samples=T.samples, truncated=T.truncated)
    with open(out, 'w') as f:
        json.dump(res, f)


if __name__ == '__main__':
    main(sys.argv[1:])
