"""python -m pxv.run ID [quick|thorough] - decides one property and writes its evidence."""
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from . import env

FINDINGS = os.path.join(env.VERIF, 'KNOWN_FINDINGS.txt')


def child_env(std):
    e = dict(os.environ)
    e.update(FORCE_STD_XML='true' if std else 'false', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
             PYTHONPATH=env.VERIF, PXV_REPO=env.REPO)
    return e


def findings(cid):
    """Listed (unfixed) findings of a property: {key: text}."""
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            if line.startswith('known: property=%s ' % cid):
                key, _, text = line.split(' ', 2)[2].strip().partition(' ')
                out[key] = text
    return out


def save_replay(cid, backend, fail):
    d = os.path.join(env.VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256((fail['part'] + fail['blob']).encode()).hexdigest()[:10]
    path = os.path.join(d, '%s-%s.json' % (cid, h))
    with open(path, 'w') as f:
        json.dump({'property': cid, 'backend': backend, 'part': fail['part'], 'what': fail['what'],
                   'report': fail['text'].split('\n'), 'case': fail['blob']}, f, indent=1)
    return path


def main(argv):
    t0 = time.monotonic()
    cid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    sd = int(os.environ.get('VERIF_SEED', '1') or '1')
    env.setup()
    mod = importlib.import_module('pxv.checks.' + cid.lower())
    per = int(os.environ.get('PXV_SHARDS', '0')) or getattr(mod, 'SHARDS', 4)
    backends = sorted({b for p in list(mod.parts()) + list(getattr(mod, 'fixed_parts', lambda: [])()) for b in p.backends})
    if len(backends) == 1 and not os.environ.get('PXV_SHARDS'):
        per *= 2
    tmp = tempfile.mkdtemp(prefix='pxv-')
    procs = []
    try:
        for b in backends:
            for s in range(per):
                out = os.path.join(tmp, '%s-%d.json' % (b, s))
                log = open(out + '.log', 'w')
                procs.append((b, s, out, log, subprocess.Popen(
                    [sys.executable, '-m', 'pxv.worker', cid, tier, str(sd), str(s), str(per), out],
                    cwd=env.VERIF, env=child_env(b == 'std'), stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)))
        results, errors = [], []
        limit = {'quick': 800, 'thorough': 6 * 3600}[tier]
        for b, s, out, log, p in procs:
            try:
                p.wait(timeout=max(5, limit - (time.monotonic() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                errors.append('worker %s/%d ran out of time' % (b, s))
                continue
            log.close()
            if not os.path.exists(out):
                errors.append('worker %s/%d died with %s\n%s' % (b, s, p.returncode, open(out + '.log').read()[-2000:]))
                continue
            r = json.load(open(out))
            results.append(r)
            if r['status'] == 'error':
                errors.append('worker %s/%d: %s' % (b, s, r['error']))
    finally:
        for *_, p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(tmp, ignore_errors=True)

    known = findings(cid)
    lines, fails = [], [(r['backend'], r['failure']) for r in results if r['status'] == 'violation']
    for key, probe in getattr(mod, 'PROBES', {}).items():
        msg = subprocess.run([sys.executable, '-m', 'pxv.probe', cid, key], cwd=env.VERIF, env=child_env(False),
                             capture_output=True, text=True, timeout=300)
        if msg.returncode == 0:
            continue
        if msg.returncode != 1:
            errors.append('probe %s: %s' % (key, msg.stderr[-2000:]))
        elif key in known:
            lines.append('KNOWN-FINDING: property=%s %s %s' % (cid, key, known[key]))
        else:
            fails.append(('lxml', dict(size=0, blob='', what='finding %s is not listed' % key, text=msg.stdout, part='probe:' + key)))

    counts, keys, truncated = {}, set(), []
    for r in results:
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        keys.update(r['keys'])
        truncated += ['%s/%d %s' % (r['backend'], r['shard'], t) for t in r['truncated']]
    samples = list(dict.fromkeys(x for r in results for x in r['samples']))
    evidence = {
        'property': cid, 'tier': tier, 'seed': sd, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(r['evaluations'] for r in results),
            'distinct_nontrivial': len(keys),
            'rule': mod.RULE,
            'samples': samples[::max(1, len(samples) // 8)][:8],
            'classes': dict(sorted(counts.items())),
            'workers': len(results),
            'backends': backends,
            'truncated_by_time': truncated,
            'exhaustive': False,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': len(fails),
    }
    os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(env.VERIF, 'evidence', cid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    for line in lines:
        print(line)
    if fails:
        backend, fail = min(fails, key=lambda x: x[1]['size'])
        path = save_replay(cid, backend, fail)
        print('[%s, %s backend]' % (fail['part'], backend))
        print(fail['text'])
        print('VIOLATION property=%s replay=%s' % (cid, path))
        return 1
    if errors:
        print('%d errors, the first:\n%s' % (len(errors), errors[0]), file=sys.stderr)
        return 2
    print('%s: held on %d cases (%d distinct non-trivial) in %.1f s' % (
        cid, evidence['coverage']['evaluations'], len(keys), evidence['wall_s']))
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
