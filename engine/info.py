import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUSTED = [
    'CPython 3.12 executing /repo source during symbolic execution',
    'engine/terms.py, engine/prover.py (term rewriting, aggregate rules)',
    'z3',
    'engine/facade/sympd.py: contracts assumed for pandas/numpy calls '
    '(row order is not represented; order-sensitive calls are rejected)',
]

ASSUMPTIONS = [
    'real arithmetic stands for IEEE-754 doubles in discharged obligations',
    'denominators that occur on both sides of an identity are non-zero, except '
    'for 0/0 = null which is modelled',
    'group/unit labels are compared by equality only; NaN labels are excluded',
    'pandas and numpy calls satisfy the contracts listed in trusted_base '
    '(cross-checked on the generated tables of every run)',
]


def manifest_entry(prop):
  p = os.path.join(ROOT, 'MANIFEST.json')
  try:
    m = json.load(open(p))
  except (OSError, ValueError):
    return {}
  for c in m.get('checks', []):
    if c['property'] == prop:
      return c
  return {}


def z3_version():
  from engine import prover
  return prover.z3.get_version_string()
