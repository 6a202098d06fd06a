"""Plants the bugs defined in a Python file (BUGS: list of dicts) one by one in a scratch copy of
/repo, confirms them (tests still pass, the demonstration tells the trees apart) and stores them in
/verif/seeded. Not used by any check.

A bug: id, property, needs, breaks, file, old, new (or edits: [(file, old, new)...]), demo (Python
source run with the package of the current directory importable), backend ('false' | 'true').
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = '/tmp/plant'
BASE = 'dd5efa2'
DEMO = '''#!/bin/bash
# cwd: the repository. Exit 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
%sexec /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(cwd):
    for std in ('false', 'true'):
        env = dict(os.environ, FORCE_STD_XML=std, PYTHONPATH=cwd, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        r = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd, env=env)
        if r.returncode:
            return '\n'.join(x for x in r.stdout.splitlines() if x.startswith(('FAILED', 'ERROR', 'E  ')))[:600]
    return None


def own_lines(cwd):
    """Changed lines that are not of the original repository (they would not count)."""
    mine = set(sh(['git', 'rev-list', BASE + '..HEAD'], cwd).stdout.split())
    out, path = [], None
    for line in sh(['git', 'diff', '-U0'], cwd).stdout.splitlines():
        if line.startswith('--- a/'):
            path = line[6:]
        m = re.match(r'@@ -(\d+)(?:,(\d+))? ', line)
        if m:
            a, n = int(m[1]), int(m[2] or 1)
            for x in sh(['git', 'blame', '-l', '-s', '-L', '%d,+%d' % (max(a, 1), max(n, 1)), 'HEAD', '--', path], cwd).stdout.splitlines():
                if x.split()[0] in mine:
                    out.append(x[41:])
    return out


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    only = set(sys.argv[2:])
    for b in bugs:
        if only and b['id'] not in only:
            continue
        if os.path.exists(SCRATCH):
            shutil.rmtree(SCRATCH)
        shutil.copytree('/repo', SCRATCH, symlinks=True, ignore=shutil.ignore_patterns('__pycache__'))
        for f, old, new in b.get('edits') or [(b['file'], b['old'], b['new'])]:
            p = os.path.join(SCRATCH, 'pydantic_xml', f)
            s = open(p).read()
            assert s.count(old) == 1, (b['id'], f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        own = own_lines(SCRATCH)
        if own:
            print('REJECTED', b['id'], 'changes lines of my own:', own)
            continue
        diff = sh(['git', 'diff'], SCRATCH).stdout
        d = os.path.join(ROOT, 'seeded', b['id'])
        os.makedirs(d, exist_ok=True)
        pre = ''.join('export %s=%s\n' % kv for kv in b.get('env', {}).items())
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % pre)
        open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        bad = tests(SCRATCH)
        clean = sh(['bash', os.path.join(d, 'demo.sh')], '/repo')
        dirty = sh(['bash', os.path.join(d, 'demo.sh')], SCRATCH)
        if bad or clean.returncode != 0 or dirty.returncode == 0:
            print('REJECTED', b['id'])
            print('  tests:', bad)
            print('  demo clean rc', clean.returncode, clean.stdout[-600:] if clean.returncode else '')
            print('  demo patched rc', dirty.returncode)
            shutil.rmtree(d)
        else:
            print('ok', b['id'], b['property'], '|', dirty.stdout.strip().splitlines()[-1][:120])
    if os.path.exists(SCRATCH):
        shutil.rmtree(SCRATCH)


main()
