"""Writes MANIFEST.json from props/*.py (each module's LEVEL and NOTE)."""
import ast
import glob
import json
import os

ROOT = os.path.dirname(os.path.abspath(__file__))
titles = {}
for l in open(os.path.join(ROOT, 'properties.jsonl')):
  d = json.loads(l)
  titles[d['id']] = d['title']
checks, na = [], []
for p in sorted(titles):
  f = os.path.join(ROOT, 'props', p + '.py')
  if not os.path.exists(f):
    na.append({'property': p, 'reason': 'check not built yet'})
    continue
  m = {}
  for n in ast.parse(open(f).read()).body:
    if isinstance(n, ast.Assign) and getattr(
        n.targets[0], 'id', '') in ('LEVEL', 'NOTE',
                                                         'TECHNIQUE'):
      m[n.targets[0].id] = ast.literal_eval(n.value)
  checks.append({
      'property': p,
      'quick_cmd': '/opt/venv/bin/python check.py %s --tier quick' % p,
      'thorough_cmd': '/opt/venv/bin/python check.py %s --tier thorough' % p,
      'technique': m['TECHNIQUE'],
      'level': m['LEVEL'],
      'level_note': m['NOTE']})
doc = {'version': 1,
       'setup_cmd': '/opt/venv/bin/python check.py --selftest',
       'checks': checks, 'not_applicable': na,
       'notes': 'No hooks in /repo: the checks load /repo unmodified. See '
                'DESIGN.md.'}
json.dump(doc, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
