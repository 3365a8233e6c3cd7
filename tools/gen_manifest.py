#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property modules present."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    path = os.path.join(ROOT, 'mc', 'props', i.lower() + '.py')
    if not os.path.exists(path):
        na.append({'property': i, 'reason': 'the check is not built yet'})
        continue
    vals = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            n = node.targets[0].id
            if n in ('LEVEL', 'TECHNIQUE', 'LEVEL_NOTE'):
                vals[n] = ast.literal_eval(node.value)
    checks.append({'property': i,
                   'quick_cmd': './check.sh %s quick' % i,
                   'thorough_cmd': './check.sh %s thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i,
                   'technique': vals['TECHNIQUE'], 'level': vals['LEVEL'],
                   'level_note': vals['LEVEL_NOTE']})
m = {'version': 1,
     'setup_cmd': 'mkdir -p evidence replays && /opt/venv/bin/python -c "import numpy, scipy, uncertainties, yaml"',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: the machinery drives the public interface of /repo unmodified.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError:
    pass
print(len(checks), 'checks', len(na), 'not yet')
