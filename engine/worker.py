"""Worker process: executes tasks given as JSON lines on stdin."""
import importlib
import json
import os
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def main():
  mode = sys.argv[1]
  out = os.fdopen(os.dup(1), 'w')
  os.dup2(2, 1)  # stray prints of the code under test go to stderr
  warnings.simplefilter('ignore')
  from engine import load, obligation, opaque
  load_err = None
  ms = None
  try:
    ms = load.load(symbolic=(mode == 'sym'))
    import meterstick
    ms = meterstick
    from meterstick import models  # noqa: F401
    ms.Abstract = opaque.make_abstract(ms, mode == 'sym')
    ms.symbolic = mode == 'sym'
  except BaseException as e:  # pylint: disable=broad-except
    load_err = ''.join(traceback.format_exception(e))[-2000:]
  mods = set()
  for line in sys.stdin:
    t = json.loads(line)
    rep = {'task': t['n']}
    t0 = time.time()
    try:
      if load_err:
        raise RuntimeError('cannot load /repo: ' + load_err)
      if t['prop'] and t['prop'] not in mods:
        importlib.import_module('props.' + t['prop'])
        mods.add(t['prop'])
      rep['result'] = run(t, ms, obligation)
    except obligation.Mismatch as e:
      rep['mismatch'] = {'what': e.what, 'case': e.case, 'key': e.key}
    except BaseException as e:  # pylint: disable=broad-except
      rep['error'] = ''.join(traceback.format_exception(e))[-3000:]
      if isinstance(e, (KeyboardInterrupt, SystemExit)):
        raise
    rep['wall'] = time.time() - t0
    try:
      text = json.dumps(rep, default=str)
    except (TypeError, ValueError):  # e.g. tuples as keys of a case
      text = json.dumps(plain(rep), default=str)
    out.write(text + '\n')
    out.flush()


def plain(v):
  if isinstance(v, dict):
    return {k if isinstance(k, str) else repr(k): plain(x)
            for k, x in v.items()}
  if isinstance(v, (list, tuple)):
    return [plain(x) for x in v]
  return v


def in_repo(tb):
  from engine import load
  fr = traceback.extract_tb(tb)
  return any(os.path.realpath(f.filename).startswith(
      os.path.realpath(load.REPO) + os.sep) for f in fr)


def run(t, ms, obligation):
  if t['kind'] == 'ping':
    return 'ok'
  if t['kind'] == 'prove':
    return obligation.prove(obligation.OBS[t['id']], ms,
                            time.time() + t['budget'])
  if t['kind'] == 'concrete':
    try:
      return obligation.concrete(obligation.OBS[t['id']], ms, t['seed'],
                                 t['count'], t.get('pools'))
    except obligation.Mismatch as e:
      ob = obligation.OBS[t['id']]
      e.case['table'] = shrink(ob, ms, obligation, e)
      raise
  if t['kind'] == 'table':
    ob = obligation.OBS[t['id']]
    d = obligation.check_table(ob, ms, t['table'])
    if d is obligation.SKIP:
      return {'skip': True}
    if d[1]:
      raise obligation.Mismatch(d[1], {'obligation': t['id'],
                                       'table': t['table'],
                                       'observed': str(d[0])[:1500]})
    return {'ok': True}
  if t['kind'] == 'suite':
    s = obligation.SUITES[t['id']]
    rep = {'id': s.id, 'cases': 0, 'tags': {}, 'samples': [], 'known': []}
    bad = None
    for i in range(t['lo'], t['hi']):
      rng = obligation.rng_for('suite', s.id, t['seed'], i)
      try:
        tag = s.run(ms, rng, i)
      except obligation.Mismatch as e:
        e.case = e.case or {}
        if not isinstance(e.case, dict):
          e.case = {'input': e.case}
        e.case.update({'suite': s.id, 'index': i, 'seed': t['seed']})
        if e.key is not None and e.key in t.get('known', ()):
          rep['cases'] += 1
          rep['known'].append({'key': e.key, 'what': e.what[:300]})
          continue
        raise
      except (Exception, SystemExit) as e:
        if in_repo(e.__traceback__):
          raise obligation.Mismatch(
              'raises %s: %s' % (type(e).__name__, str(e)[:300]),
              {'suite': s.id, 'index': i, 'seed': t['seed'], 'trace': ''.join(
                  traceback.format_exception(e))[-2500:]})
        raise
      rep['cases'] += 1
      if tag is not None:
        k = str(tag)[:200]
        rep['tags'][k] = rep['tags'].get(k, 0) + 1
        if not rep['samples']:
          rep['samples'].append('case %d: %s' % (i, k))
    return rep
  raise ValueError(t['kind'])


def shrink(ob, ms, obligation, e):
  rows = e.case['table']
  changed = True
  budget = 60
  while changed and len(rows) > 1 and budget > 0:
    changed = False
    for i in range(len(rows)):
      r2 = rows[:i] + rows[i + 1:]
      budget -= 1
      if budget <= 0:
        break
      try:
        d = obligation.check_table(ob, ms, r2)
      except Exception:  # pylint: disable=broad-except
        continue
      if d is not obligation.SKIP and d[1]:
        rows = r2
        e.what = d[1]
        e.case['observed'] = str(d[0])[:1500]
        changed = True
        break
  return rows


main()
