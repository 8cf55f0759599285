#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]"""
import argparse
import glob
import hashlib
import importlib
import json
import os
import queue
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
PY = '/opt/venv/bin/python'
if not os.path.exists(PY):
  PY = sys.executable


class Pool(object):
  """Worker processes with per-task deadlines."""

  def __init__(self, n):
    self.n = n
    self.tasks = queue.Queue()
    self.results = []
    self.lock = threading.Lock()
    self.left = 0

  def run(self, tasks, deadline):
    """tasks: dicts with 'mode'; returns list of reports aligned with tasks."""
    out = [None] * len(tasks)
    for i, t in enumerate(tasks):
      t['n'] = i
    by = {'sym': queue.Queue(), 'real': queue.Queue()}
    order = sorted(range(len(tasks)), key=lambda i: -tasks[i].get('cost', 1))
    for i in order:
      by[tasks[i]['mode']].put(tasks[i])
    ns = by['sym'].qsize()
    nr = by['real'].qsize()
    if ns and nr:
      # share the workers by total cost
      cs = sum(t.get('cost', 1) for t in tasks if t['mode'] == 'sym')
      cr = sum(t.get('cost', 1) for t in tasks if t['mode'] == 'real')
      k = max(1, min(self.n - 1, int(round(self.n * cs / float(cs + cr)))))
      k = min(k, ns)
      split = {'sym': k, 'real': min(nr, self.n - k)}
    else:
      split = {'sym': min(ns, self.n), 'real': min(nr, self.n)}
    threads = []
    for mode in ('sym', 'real'):
      for _ in range(split[mode]):
        th = threading.Thread(target=self.loop, args=(mode, by, out, deadline))
        th.daemon = True
        th.start()
        threads.append(th)
    for th in threads:
      th.join()
    return [r if r is not None else {'error': 'not run: out of time',
                                     'timeout': True} for r in out]

  def spawn(self, mode):
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg')
    return subprocess.Popen(
        [PY, os.path.join(ROOT, 'engine', 'worker.py'), mode],
        stdin=subprocess.PIPE, stdout=subprocess.PIPE,
        stderr=subprocess.DEVNULL, env=env, cwd=ROOT)

  def loop(self, mode, by, out, deadline):
    other = 'real' if mode == 'sym' else 'sym'
    for m in (mode, other):
      p = None
      q = by[m]
      while True:
        try:
          t = q.get_nowait()
        except queue.Empty:
          break
        if time.time() > deadline:
          break
        if p is None:
          p = self.spawn(m)
        limit = min(t.get('limit', 150), max(1, deadline - time.time()))
        res = self.call(p, t, limit)
        if res is None:
          dead = p.poll()
          p.kill()
          p.wait()
          p = None
          res = {'error': 'worker ended (%s)' % dead if dead is not None else
                 'time limit %.0fs' % limit, 'timeout': True}
        out[t['n']] = res
      if p is not None:
        try:
          p.stdin.close()
          p.kill()
          p.wait()
        except OSError:
          pass

  def call(self, p, t, limit):
    try:
      p.stdin.write((json.dumps(t) + '\n').encode())
      p.stdin.flush()
    except OSError:
      return None
    timer = threading.Timer(limit, p.kill)
    timer.start()
    try:
      line = p.stdout.readline()
    finally:
      timer.cancel()
    if not line:
      return None
    try:
      return json.loads(line)
    except ValueError:
      return None


def load_known():
  """key -> (property, text) of recorded findings that are not fixed."""
  out = {}
  p = os.path.join(ROOT, 'known_findings.txt')
  if os.path.exists(p):
    for line in open(p):
      line = line.strip()
      if line.startswith('known: '):
        kv = line[len('known: '):].split(' ', 2)
        prop = kv[0].split('=', 1)[1]
        key = kv[1].split('=', 1)[1]
        out[key] = (prop, kv[2] if len(kv) > 2 else '')
  return out


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('prop', nargs='?')
  ap.add_argument('--selftest', action='store_true')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--replay')
  ap.add_argument('--only')
  ap.add_argument('--record', action='store_true')
  ap.add_argument('--jobs', type=int, default=0)
  ap.add_argument('-v', action='store_true')
  a = ap.parse_args()
  if a.selftest:
    return selftest()
  seed = int(os.environ.get('VERIF_SEED', '1'))
  prop, tier = a.prop, a.tier
  thorough = tier == 'thorough'
  t0 = time.time()
  budget = 780 if thorough else 420
  deadline = t0 + budget
  from engine import obligation as O
  mod = importlib.import_module('props.' + prop)
  jobs = a.jobs or min(8, os.cpu_count() or 2)
  pool = Pool(jobs)
  known = load_known()
  mykeys = sorted(k for k, v in known.items() if v[0] == prop)
  if a.replay:
    return replay(a, pool, mykeys)
  obs = [o for o in O.OBS.values() if o.prop == prop and
         (thorough or o.tier == 'quick')]
  suites = [s for s in O.SUITES.values() if s.prop == prop]
  if a.only:
    obs = [o for o in obs if a.only in o.id]
    suites = [s for s in suites if a.only in s.id]
  base = {}
  bp = os.path.join(ROOT, 'baseline.json')
  if os.path.exists(bp):
    base = json.load(open(bp))
  mult = 12 if thorough else 1
  tasks = []
  for o in obs:
    if o.deductive:
      tasks.append({'kind': 'prove', 'mode': 'sym', 'prop': prop, 'id': o.id,
                    'budget': 300 if thorough else 110,
                    'limit': 340 if thorough else 130,
                    'cost': base.get(o.id, {}).get('cost', 2)})
    if o.n:
      tasks.append({'kind': 'concrete', 'mode': 'real', 'prop': prop,
                    'id': o.id, 'seed': seed, 'count': o.n * mult, 'cost':
                    o.n * mult * 0.05, 'limit': 400})
  for s in suites:
    n = (s.n_thorough or s.n * 15) if thorough else s.n
    ch = s.chunk or max(5, n // 6)
    for lo in range(0, n, ch):
      tasks.append({'kind': 'suite', 'mode': 'real', 'prop': prop, 'id': s.id,
                    'seed': seed, 'lo': lo, 'hi': min(n, lo + ch),
                    'known': mykeys, 'cost': ch * 0.1, 'limit': 400})
  res = pool.run(tasks, deadline)
  proofs, conc, srep, errors, viol, knownhits = {}, {}, {}, [], [], {}
  for t, r in zip(tasks, res):
    if 'mismatch' in r:
      viol.append((t, r['mismatch']))
      continue
    if 'error' in r:
      errors.append({'task': '%s %s' % (t['kind'], t['id']),
                     'error': r['error'][-1500:],
                     'timeout': bool(r.get('timeout'))})
      if t['kind'] == 'prove':
        proofs[t['id']] = {'id': t['id'], 'status': 'timeout' if r.get(
            'timeout') else 'error', 'detail': r['error'][-600:]}
      continue
    if t['kind'] == 'prove':
      proofs[t['id']] = r['result']
    elif t['kind'] == 'concrete':
      conc[t['id']] = r['result']
    else:
      x = srep.setdefault(t['id'], {'cases': 0, 'tags': {}, 'samples': []})
      x['cases'] += r['result']['cases']
      for k, v in r['result']['tags'].items():
        x['tags'][k] = x['tags'].get(k, 0) + v
      x['samples'] = (x['samples'] + r['result']['samples'])[:2]
      for k in r['result']['known']:
        knownhits.setdefault(k['key'], k['what'])
  # undischarged obligations: look harder for a failing input
  hunt = []
  for i, p in proofs.items():
    if p['status'] != 'proved' and O.OBS[i].n and not any(
        t['id'] == i for t, _ in viol):
      if base.get(i, {}).get('status') == 'proved' or thorough:
        pools = p.get('lits') or None
        for j in range(4):
          hunt.append({'kind': 'concrete', 'mode': 'real', 'prop': prop,
                       'id': i, 'seed': seed * 1000 + 17 + j,
                       'count': O.OBS[i].n * 3, 'pools': None, 'limit': 200,
                       'cost': 1})
          if pools:
            sch = O.OBS[i].schema
            pl = {c: (pools['keys'] + O.KEYS if k == 'key' else
                      pools['nums'] + O.NUMS) for c, k in sch.items()
                  if k in ('key', 'num', 'num?')}
            hunt.append({'kind': 'concrete', 'mode': 'real', 'prop': prop,
                         'id': i, 'seed': seed * 1000 + 57 + j,
                         'count': O.OBS[i].n * 2, 'pools': pl, 'limit': 200,
                         'cost': 1})
  if hunt and time.time() < deadline - 30:
    for t, r in zip(hunt, pool.run(hunt[:160], deadline)):
      if 'mismatch' in r:
        viol.append((t, r['mismatch']))
  # an obligation discharged on the unchanged tree that the prover now rejects
  nfi = []
  for i, p in proofs.items():
    if p['status'] == 'failed' and base.get(i, {}).get('status') == 'proved':
      if not any(t['id'] == i for t, _ in viol):
        nfi.append((i, p))
  code = 0
  rdir = os.path.join(ROOT, 'replay')
  os.makedirs(rdir, exist_ok=True)
  nviol = 0
  seen = set()
  for t, m in viol:
    key = m.get('key') or t['id']
    if key in seen:
      continue
    seen.add(key)
    if m.get('key') in mykeys:
      knownhits.setdefault(m['key'], m['what'])
      continue
    rec = {'property': prop, 'task': t, 'what': m['what'], 'case': m['case'],
           'rerun': 'python3 check.py %s --replay <this file>' % prop}
    path = write_replay(rdir, prop, t['id'], rec)
    print('%s: %s: %s' % (prop, t['id'], m['what'][:500]))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    nviol += 1
    code = 1
  if nfi and not nviol:
    rec = {'property': prop, 'failed_obligations': [
        {'obligation': i, 'functions': O.OBS[i].fns, 'verifier_output': p}
        for i, p in nfi]}
    path = write_replay(rdir, prop, nfi[0][0], rec)
    for i, p in nfi:
      print('%s: obligation %s no longer discharged: %s' % (
          prop, i, json.dumps(p['failed'])[:600]))
    print('VIOLATION property=%s replay=%s no-failing-input-found' % (
        prop, path))
    nviol += 1
    code = 1
  for k in mykeys:
    if k in knownhits:
      print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, known[k][1]))
  write_evidence(prop, tier, seed, obs, suites, proofs, conc, srep, errors,
                 nviol, time.time() - t0, knownhits, mod, O)
  nd = sum(1 for p in proofs.values() if p['status'] == 'proved')
  print('%s %s: %d/%d obligations discharged, %d concrete tables, %d bounded '
        'cases, %d internal errors, %.1fs' % (
            prop, tier, nd, len(proofs), sum(c['cases'] for c in conc.values()),
            sum(s['cases'] for s in srep.values()), len(errors),
            time.time() - t0))
  if a.v or a.record:
    for i, p in sorted(proofs.items()):
      if p['status'] != 'proved':
        print('  %-50s %-11s %6.1fs %s' % (i, p['status'], p.get('wall', 0), (
            p.get('detail') or json.dumps(p.get('failed', '')) or '')[:500]))
        if p.get('raise'):
          print(p['raise'])
    for e in errors[:6]:
      print('  ERROR', e['task'], e['error'][-(1500 if a.v else 200):])
  if a.record:
    cur = json.load(open(bp)) if os.path.exists(bp) else {}
    for i in [k for k, v in cur.items() if v.get('prop') == prop and
              k not in O.OBS]:
      del cur[i]
    for i, p in proofs.items():
      cur[i] = {'prop': prop, 'status': p['status'], 'cost': max(
          1, round(p.get('wall', 1)))}
    json.dump(cur, open(bp, 'w'), indent=0, sort_keys=True)
  # a check that explored nothing is an error, not a pass
  total = nd + sum(c['cases'] for c in conc.values()) + sum(
      s['cases'] for s in srep.values())
  if code == 0 and total == 0:
    print('nothing was checked:', json.dumps(errors)[:2000])
    return 2
  return code


def selftest():
  """Setup: the tools are there and both worker kinds start."""
  pool = Pool(2)
  r = pool.run([{'kind': 'ping', 'mode': 'sym', 'prop': ''},
                {'kind': 'ping', 'mode': 'real', 'prop': ''}],
               time.time() + 120)
  print(json.dumps(r))
  return 0 if all('result' in x for x in r) else 1


def write_replay(rdir, prop, oid, rec):
  s = json.dumps(rec, default=str, indent=1)
  h = hashlib.sha256(s.encode()).hexdigest()[:8]
  path = os.path.join(rdir, '%s-%s-%s.json' % (
      prop, ''.join(c if c.isalnum() else '_' for c in oid)[-40:], h))
  open(path, 'w').write(s)
  return path


def replay(a, pool, mykeys):
  rec = json.load(open(a.replay))
  if 'task' not in rec:
    print(json.dumps(rec, indent=1)[:6000])
    return 0
  t = dict(rec['task'])
  c = rec.get('case') or {}
  if 'table' in c:
    t = {'kind': 'table', 'mode': 'real', 'prop': a.prop, 'id': t['id'],
         'table': c['table']}
  elif 'index' in c:
    t.update(lo=c['index'], hi=c['index'] + 1)
  r = pool.run([t], time.time() + 300)[0]
  print(json.dumps(r, indent=1)[:6000])
  if 'mismatch' in r:
    print('VIOLATION property=%s replay=%s' % (a.prop, a.replay))
    return 1
  return 0


def write_evidence(prop, tier, seed, obs, suites, proofs, conc, srep, errors,
                   nviol, wall, knownhits, mod, O):
  from engine import info
  entry = info.manifest_entry(prop)
  level = entry.get('level', 'proof')
  disch = [i for i, p in proofs.items() if p['status'] == 'proved']
  goals = sum(p.get('goals', 0) for p in proofs.values())
  contracts = sorted({c for p in proofs.values()
                      for c in p.get('contracts', [])})
  fns_d = sorted({f for i in disch for f in O.OBS[i].fns})
  fns_b = sorted({f for s in suites for f in s.fns} | {
      f for o in obs if o.id not in disch for f in o.fns})
  z3 = {'queries': 0, 'time': 0.0, 'unsat': 0, 'sat': 0, 'unknown': 0}
  for p in proofs.values():
    for k in z3:
      z3[k] += p.get('z3', {}).get(k, 0)
  z3['time'] = round(z3['time'], 2)
  samples = []
  for o in obs[:200]:
    if o.id in conc and conc[o.id]['samples'] and len(samples) < 3:
      samples.append({'obligation': o.id, 'case': conc[o.id]['samples'][0]})
  for i, s in srep.items():
    if s['samples'] and len(samples) < 6:
      samples.append({'suite': i, 'case': s['samples'][0]})
  cov = {
      'obligations': len(proofs),
      'discharged': len(disch),
      'goals_checked': goals,
      'checker_cmd': 'python3 check.py %s --tier %s' % (prop, tier),
      'backend': 'symbolic execution of the unmodified /repo source over the '
                 'pandas contract layer; z3 %s plus rules %s' % (
                     info.z3_version(), sorted({r for p in proofs.values()
                                                for r in p.get('rules', [])})),
      'solver': z3,
      'trusted_base': info.TRUSTED + ['assumed contract: ' + c
                                      for c in contracts],
      'functions_under_contract': fns_d,
      'functions_bounded_only': [f for f in fns_b if f not in fns_d],
      'obligation_results': [
          {'id': i, 'status': p['status'], 'goals': p.get('goals', 0),
           'paths': p.get('paths', 0), 'wall_s': p.get('wall'),
           'detail': (p.get('detail') or json.dumps(p.get('failed', ''))
                     )[:300] if p['status'] != 'proved' else ''}
          for i, p in sorted(proofs.items())],
      'evaluations': sum(c['cases'] for c in conc.values()) + sum(
          s['cases'] for s in srep.values()),
      'distinct_nontrivial': sum(c['nontrivial'] for c in conc.values()) + sum(
          len(s['tags']) for s in srep.values()),
      'rule': 'bounded layer: every obligation is also run on the real pandas '
              'over distinct generated tables (non-trivial: non-empty result); '
              'suites: distinct case tags reported by the suite',
      'samples': samples or ['none'],
      'bounded_suites': {i: {'cases': s['cases'], 'distinct_tags': len(
          s['tags']), 'what': O.SUITES[i].what[:300],
                             'functions': O.SUITES[i].fns}
                         for i, s in srep.items()},
      'internal_errors': errors[:20],
      'known_findings_seen': sorted(knownhits),
      'explanation': entry.get('level_note', ''),
  }
  ev = {'property': prop, 'tier': 'thorough' if tier == 'thorough' else 'quick',
        'seed': seed, 'level': level, 'coverage': cov,
        'assumptions': info.ASSUMPTIONS + list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2), 'violations': nviol}
  os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
  json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'),
            indent=1, default=str)


if __name__ == '__main__':
  sys.exit(main())
