"""Writes MANIFEST.json from properties.jsonl and the check modules that exist."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'property-based testing: '
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    path = os.path.join(ROOT, 'pxv', 'checks', p['id'].lower() + '.py')
    if not os.path.exists(path):
        na.append({'property': p['id'], 'reason': 'check not built yet'})
        continue
    src = open(path).read()
    tech = re.search(r"^TECHNIQUE = (.*?)$\n(?!\s)", src, re.M | re.S)
    note = re.search(r"^NOTE = (.*?)$\n(?!\s)", src, re.M | re.S)
    checks.append({
        'property': p['id'],
        'quick_cmd': './check.sh %s quick' % p['id'],
        'thorough_cmd': './check.sh %s thorough' % p['id'],
        'technique': TECH + (eval(tech[1]) if tech else 'generated models, instances and documents against a reference model'),
        'level': 'exploration',
        'level_note': eval(note[1]) if note else (
            'Random search with shrinking; assurance is that of the explored cases listed in the evidence. '
            'Trusts pydantic for validation and JSON-mode encoding, expat and libxml2 for reading, and the reference model in pxv/ref.py.'),
    })
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks;', 'not claimed:', [x['property'] for x in na])
