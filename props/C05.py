"""C05: caching and sharing never change a result."""
import io
import contextlib
import math

import numpy as np

from engine import compare
from engine import obligation as O
from props import catalog as C
from props import trees as T

P = 'C05'
LEVEL = 'proof'
TECHNIQUE = ('contract-based deductive verification: sequences of computations '
             'sharing a cache (also shared metric objects, other filters and '
             'splits) against fresh computations, for all tables, on '
             'symbolically executed real code, discharged by z3; bounded '
             'suites for random metric trees, failing steps and Jackknifes')
NOTE = ('Proved for pairs of metrics of the catalog; arbitrary trees, longer '
        'sequences, resampling and regressions are bounded.')
FNS = ['metrics.Metric._compute_with_caching_and_postprocessing',
       'metrics.Metric.save_to_cache', 'metrics.Metric.get_cached',
       'metrics.Metric.wrap_cache_key', 'metrics.Metric.clean_up_cache',
       'metrics.MetricList.compute_slices',
       'metrics.CompositeMetric.compute_slices', 'utils.CacheKey']


def quiet(fn, *a, **k):
  with contextlib.redirect_stdout(io.StringIO()):
    return O.run_impl(lambda: fn(*a, **k))


def columns(res):
  """{(row, position): value}, labels."""
  if isinstance(res, compare.Raised):
    return res
  return compare.from_real(res)


def same(what, a, b, case, key=None):
  ra, rb = isinstance(a, compare.Raised), isinstance(b, compare.Raised)
  if ra or rb:
    if ra != rb:
      raise O.Mismatch('%s: %s, alone: %s' % (what, a if ra else 'a value',
                                               b if rb else 'a value'), case,
                       key)
    return
  d = compare.diff(columns(a), columns(b), {}, 1e-9)
  if d:
    raise O.Mismatch('%s: %s' % (what, d), case, key)


BYS = [[], ['g'], ['s', 'g']]


def by_for(rng, kind, tree):
  by = rng.choice(BYS)
  return [b for b in by if b not in repr(tree) or b == 'g'] if 's' in repr(
      tree) and 'MH' in repr(tree) else by


def rowmap(n):
  out = {}
  for k, v in n['rows']:
    if k in out:
      return None
    out[k] = v
  return out


def frame(res):
  """(names, columns, {row: values}) or None."""
  n = columns(res)
  if not isinstance(n, dict) or n['kind'] != 'DataFrame':
    return None
  m = rowmap(n)
  return None if m is None else (n['names'], n['columns'], m)


def joint(what, res, alone, case):
  """res: list of metrics; alone: results of its members."""
  if any(isinstance(a, compare.Raised) for a in alone):
    return None  # a member outside its domain
  if isinstance(res, compare.Raised):
    raise O.Mismatch('%s: %r, every member alone has a value' % (what, res),
                     case)
  f = frame(res)
  fs = [frame(a) for a in alone]
  if None in fs or f is None:
    return None
  names, cs, rows = f
  if any(g[0] != fs[0][0] for g in fs):
    return None
  want = {}
  labels = [c for g in fs for c in g[1]]
  width = [len(g[1]) for g in fs]
  for k in {k for g in fs for k in g[2]}:
    want[k] = [v for g, w in zip(fs, width) for v in g[2].get(k, [None] * w)]
  if cs != labels:
    raise O.Mismatch('%s: columns %s, alone %s' % (what, cs, labels), case)
  if names != fs[0][0] or set(rows) != set(want):
    raise O.Mismatch('%s: rows %s of %s, alone %s of %s' % (
        what, sorted(map(str, rows)), names, sorted(map(str, want)),
        fs[0][0]), case)
  for k in want:
    for c, x, y in zip(cs, rows[k], want[k]):
      if not compare.close(x, y, 1e-9):
        raise O.Mismatch('%s: %s at %s is %s, alone %s' % (what, c, k, x, y),
                         case)
  return True


def some_trees(rng, kind, n):
  """Trees that repeat each other and each other's parts."""
  ts = []
  for _ in range(n):
    r = rng.random()
    if ts and r < .2:
      ts.append(rng.choice(ts))
    elif ts and r < .3:
      ts.append(T.renamed(rng, rng.choice(ts)))
    elif ts and r < .5 and not kind:
      p = [z for t in ts for z in T.parts(t) if z[0] != 'list']
      a = rng.choice(p) if p else T.scalar(rng, 1)
      ts.append(('op', rng.choice('+-*/'), a, T.scalar(rng, 1))
                if rng.random() < .5 else a)
    elif ts and r < .5:
      # the same child under another operation
      p = [t for t in ts if t[0] == 'fn' and t[1] != 'MH']
      t = T.over(rng, kind, 2)
      if p and t[1] != 'MH':
        t = t[:3] + (rng.choice(p)[3],) + t[4:]
      ts.append(t)
    else:
      ts.append(T.tree(rng, kind))
  return ts


def list_run(ms, rng, i, kind):
  ts = some_trees(rng, kind, rng.randint(2, 4))
  by = by_for(rng, kind, ts)
  rows = T.table(rng)
  df = O.to_df(T.SCHEMA, rows)
  case = {'trees': ts, 'by': by, 'rows': rows}
  alone = [quiet(T.build(ms, t).compute_on, df, by) for t in ts]
  memo = {}
  share = rng.random() < .7
  mem = [T.build(ms, t, memo if share else None, lambda: rng.random() < .3)
         for t in ts]
  m = ms.MetricList(mem)
  ok = joint('list', quiet(m.compute_on, df, by), alone, case)
  if ok is None:
    return None
  joint('list computed again', quiet(m.compute_on, df, by), alone, case)
  for t, z, a in zip(ts, mem, alone):
    same('member computed after the list', quiet(z.compute_on, df, by), a,
         case)
  # equivalent metrics inside a comparison and next to it
  return (kind, len(by), len(ts), share)


for _k in ('', 'h', 'c'):
  O.Suite('C05.list.%s' % (_k or 'flat'), P, FNS,
          lambda ms, rng, i, k=_k: list_run(ms, rng, i, k), 70, 1200,
          what='members of a list sharing parts = members alone')


def value(ms, t, df, by):
  """{row: value} of a one-column tree, every part computed alone."""
  if isinstance(t, (int, float)):
    return t
  if t[0] == 'op':
    a, b = (value(ms, z, df, by) for z in t[2:])
    if a is None or b is None:
      return None
    keys = set()
    for z in (a, b):
      keys |= set(z) if isinstance(z, dict) else set()
    out = {}
    for k in keys:
      x = a.get(k) if isinstance(a, dict) else a
      y = b.get(k) if isinstance(b, dict) else b
      if x is None or y is None:
        out[k] = None
        continue
      try:
        out[k] = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y,
                  '/': lambda: x / y, '**': lambda: x**y}[t[1]]()
        if isinstance(out[k], complex):
          return None
      except (ZeroDivisionError, OverflowError):
        return None
    return out
  f = frame(quiet(T.build(ms, t).compute_on, df, by))
  if f is None or any(len(v) != 1 for v in f[2].values()):
    return None
  if any(v[0] is not None and math.isinf(v[0]) for v in f[2].values()):
    return None
  return {k: v[0] for k, v in f[2].items()}


def op_run(ms, rng, i):
  p = [T.scalar(rng, 1) for _ in range(2)]
  t = rng.choice(p)
  for _ in range(rng.randint(1, 4)):
    o = rng.choice(p + [t, T.leaf(rng), 2])
    t = ('op', rng.choice('+-*/'), t, o) if rng.random() < .5 else (
        'op', rng.choice('+-*/'), o, t)
  by = rng.choice(BYS)
  rows = T.table(rng)
  df = O.to_df(T.SCHEMA, rows)
  case = {'tree': t, 'by': by, 'rows': rows}
  want = value(ms, t, df, by)
  if not isinstance(want, dict):
    return None
  m = T.build(ms, t, {} if rng.random() < .7 else None,
              lambda: rng.random() < .3)
  for n in range(2):
    res = quiet(m.compute_on, df, by)
    f = frame(res)
    if f is None:
      raise O.Mismatch('arithmetic with shared parts: %r' % (res,), case)
    got = {k: v[0] for k, v in f[2].items()}
    if set(got) != set(want):
      raise O.Mismatch('arithmetic with shared parts: rows %s, parts have %s' %
                       (sorted(got), sorted(want)), case)
    for k, w in want.items():
      if not compare.close(got[k], w, 1e-7):
        raise O.Mismatch('arithmetic with shared parts at %s: %s, from parts '
                         'computed alone %s' % (k, got[k], w), case)
  return (len(by), str(t)[:40])


O.Suite('C05.arithmetic', P, FNS, op_run, 150, 3000,
        what='arithmetic over shared parts = arithmetic of parts alone')


def history(ms, rng, i):
  kind = rng.choice(['', '', 'h', 'c'])
  ts = some_trees(rng, kind, rng.randint(2, 3))
  if not kind and rng.random() < .4:
    ts.append(('fn', 'Jackknife', ('u',), ts[0], {}))
  memo = {}
  pool = {('t', n): T.build(ms, t, memo) for n, t in enumerate(ts)}
  data, raw = {}, {}
  for d in ('d1', 'd2'):
    raw[d] = T.table(rng)
    data[d] = O.to_df(T.SCHEMA, raw[d])
  data['bad'] = data['d1'].drop(columns=['y', 'w'])
  lists = [[rng.randrange(len(ts)) for _ in range(2)] for _ in range(2)]
  ws = [T.where(rng) for _ in lists]
  for n, l in enumerate(lists):
    pool[('l', n)] = ms.MetricList([pool[('t', k)] for k in l], **ws[n])
  trees = {('t', n): t for n, t in enumerate(ts)}
  trees.update({('l', n): ('list', [ts[k] for k in l], ws[n])
                for n, l in enumerate(lists)})
  steps = []
  caches = {d: {} for d in data}
  by = by_for(rng, kind, ts)
  for _ in range(rng.randint(4, 7)):
    k = rng.choice(sorted(pool))
    d = rng.choice(['d1', 'd1', 'd2', 'd2', 'bad'])
    b = by if rng.random() < .6 else by_for(rng, kind, ts)
    kw = {'melted': rng.random() < .3}
    r = rng.random()
    if r < .25:
      kw['cache_key'] = d
    elif r < .5:
      kw['cache_key'] = d
      kw['cache'] = caches[d]
    steps.append((k, d, b, {q: v for q, v in kw.items() if q != 'cache'},
                  'cache' in kw))
    case = {'trees': ts, 'lists': lists, 'where': ws, 'steps': steps, 'd1': raw['d1'],
            'd2': raw['d2']}
    got = quiet(pool[k].compute_on, data[d], b, **kw)
    want = quiet(T.build(ms, trees[k]).compute_on, data[d], b,
                 melted=kw['melted'])
    if isinstance(got, compare.Raised) and isinstance(want, compare.Raised):
      continue
    same('step %d of a sequence of computations' % len(steps), got, want, case)
    if rng.random() < .3:
      a, b = (O.run_impl(lambda: str(m.to_sql('T', b))) for m in (
          pool[k], T.build(ms, trees[k])))
      if isinstance(a, str) and a != b:
        raise O.Mismatch('after a sequence of computations the SQL is %s, of '
                         'a new metric %s' % (a, b), case)
  return (kind, len(steps))


O.Suite('C05.history', P, FNS, history, 120, 2500,
        what='sequences of computations, some failing, = fresh computations')


def sql_history(ms, rng, i):
  """Computations on SQL with shared metrics and user caches."""
  from props import C13
  kind = rng.choice(['', '', 'h', 'c'])
  ts = some_trees(rng, kind, rng.randint(1, 2))
  memo = {}
  pool = [T.build(ms, t, memo) for t in ts]
  pool.append(ms.MetricList(list(pool)))
  make = [lambda t=t: T.build(ms, t) for t in ts] + [
      lambda: ms.MetricList([T.build(ms, t) for t in ts])]
  raw = {d: T.table(rng, nulls=False) for d in ('d1', 'd2')}
  data = {d: O.to_df(T.SCHEMA, raw[d]) for d in raw}
  data['bad'] = data['d1'].drop(columns=['y', 'w'])
  caches = {d: {} for d in data}
  # the modes differ in the slices that a filter empties (see C13)
  mode = rng.choice([None, 'mixed'])
  steps, by = [], by_for(rng, kind, ts)
  for _ in range(rng.randint(2, 4)):
    k, d = rng.randrange(len(pool)), rng.choice(['d1', 'd1', 'd2', 'bad'])
    b = by if rng.random() < .6 else by_for(rng, kind, ts)
    kw = {'melted': rng.random() < .3}
    r = rng.random()
    if r < .6:
      kw['cache_key'] = d
    if r < .4:
      kw['cache'] = caches[d]
    steps.append((k, d, b, mode, {q: v for q, v in kw.items()
                                  if q != 'cache'}, 'cache' in kw))
    case = {'trees': ts, 'steps': steps, 'd1': raw['d1'], 'd2': raw['d2']}
    ex = C13.Exec(data[d])
    want = quiet(make[k]().compute_on_sql, 'T', b, execute=C13.Exec(data[d]),
                 mode=mode, melted=kw['melted'])
    got = quiet(pool[k].compute_on_sql, 'T', b, execute=ex, mode=mode, **kw)
    if ex.unsupported:
      caches[d] = {}
      continue
    if isinstance(want, compare.Raised):
      continue
    same('step %d of a sequence of computations on SQL' % len(steps), got,
         want, case)
  return (kind, len(steps))


O.Suite('C05.sql_history', P, FNS + ['metrics.Metric.compute_on_sql'],
        sql_history, 60, 1200,
        what='sequences of computations on SQL = fresh computations')


def jk_run(ms, rng, i):
  """Jackknifes and the metrics they contain, next to each other."""
  kind = rng.choice(['', '', '', 'c'])
  ts = some_trees(rng, kind, 2)
  if rng.random() < .4 and not kind:
    w = T.where(rng)
    ts = [('leaf', c, (rng.choice('xw'),), dict(w) if rng.random() < .5 else {})
          for c in rng.choices(['Sum', 'Count', 'Mean', 'Variance'], k=2)]
  us = [rng.choice(['u', 'u', 's']) for _ in range(3)]
  lw = [z[3] for t in ts for z in T.parts(t) if z[0] == 'leaf' and
        z[3].get('where')]
  ws = [{'where': rng.choice(lw)['where']} if lw and rng.random() < .4 else
        T.where(rng) if rng.random() < .3 else {} for _ in range(3)]
  # Optimization treats slices which a filter empties differently (see C11).
  opt = [rng.random() < .6] * 3
  by = rng.choice([[], ['g']])
  if kind and 's' in repr(ts):
    us = ['u'] * 3
  rows = T.table(rng, 8, 16)
  df = O.to_df(T.SCHEMA, rows)
  conf = rng.choice([None, None, .9])
  # The same child split by the unit and other columns, which a Jackknife
  # finds in the cache.
  extra = [rng.choice([['u'], ['u', 'h'], ['s']]) for _ in range(2)] if (
      not kind and not by and rng.random() < .4) else []
  case = {'trees': ts, 'units': us, 'where': ws, 'opt': opt, 'by': by,
          'rows': rows, 'conf': conf, 'first': extra}

  def one(n, memo=None):
    t = ts[n % len(ts)]
    return ms.Jackknife(us[n], T.build(ms, t, memo), confidence=conf,
                        enable_optimization=opt[n], **ws[n])
  memo = {} if rng.random() < .6 else None
  alone = [quiet(one(n).compute_on, df, by) for n in range(3)]
  m = ms.MetricList([one(n, memo) for n in range(3)])
  ok = joint('jackknifes in a list', quiet(m.compute_on, df, by), alone, case)
  if ok is None:
    return None
  joint('jackknifes in a list, again', quiet(m.compute_on, df, by), alone,
        case)
  cache = {}
  for b in extra:
    quiet(T.build(ms, rng.choice(ts)).compute_on, df, b, cache_key='k',
          cache=cache)
  joint('jackknifes sharing a cache', quiet(
      m.compute_on, df, by, cache_key='k', cache=cache), alone, case)
  joint('jackknifes sharing a cache, again', quiet(
      ms.MetricList([one(n) for n in range(3)]).compute_on, df, by,
      cache_key='k', cache=cache), alone, case)
  return (len(by), str(us), conf, kind)


O.Suite('C05.jackknife', P, FNS + ['operations.Jackknife'], jk_run, 120, 2400,
        what='jackknifes in one list = jackknifes alone')


# ------------------------------------------------------------- obligations
DED = [e for e in C.CAT.values() if e.ded and not e.unit]


def same_base(a, b):
  return not (a.cond and b.cond) or a.name == b.name or 'pct_multi' not in (
      a.name, b.name)


def pairs():
  """Every metric next to ones that use the same columns."""
  for n, a in enumerate(DED):
    k = 0
    for d in range(1, len(DED)):
      b = DED[(n + d) % len(DED)]
      if not (set(a.cols) & set(b.cols)) or not same_base(a, b):
        continue
      if {'g', 's'} & (set(a.cols) | set(b.cols)) and 'g' in a.cols + b.cols:
        continue
      k += 1
      yield a, b, 'quick' if k <= 1 else 'thorough'
      if k >= 4:
        break


def schema(a, b, *more):
  return {c: C.SCH[c] for c in list(a.cols) + [
      z for z in b.cols + list(more) if z not in a.cols]}


def needs(es, by):
  out = []
  for e in es:
    if e.cond:
      base = {'c': 'a'}
      if e.name == 'pct_multi':
        base['h'] = 'b'
      out.append(lambda rows, base=base: rows.at(**base).exists())
  return out


def gen(a, b, by):
  u = C.Entry.__new__(C.Entry)
  u.__dict__.update(a.__dict__, cols=list(schema(a, b)),
                    cond=a.cond or b.cond, name='pct_multi' if 'pct_multi' in (
                        a.name, b.name) else a.name)
  return lambda rng, i: C.table(u, rng, i, by)


def steps(a, b, by):
  """(metric, split, keyword arguments) of a sequence."""
  other = [] if by else ['g']
  out = [(a, by, {}), (b, by, {}), (a, other, {}), (a, by, {})]
  if a.kw and 'w' in a.cols:
    out.insert(1, (a, by, {'where': 'w > 1'}))
  return out


def run_shared(a, b, by):
  def f(ms, df):
    cache, memo, res = {}, {}, []
    for n, (e, s, kw) in enumerate(steps(a, b, by)):
      # the last step uses an equal metric, the others their own object
      k = (e.name, str(kw), n == len(steps(a, b, by)) - 1)
      m = memo.setdefault(k, None) or e.build(ms, **kw)
      memo[k] = m
      res.append(m.compute_on(df, s, cache_key='k', cache=cache))
    return res
  return f


def run_alone(a, b, by):
  return lambda ms, df: [e.build(ms, **kw).compute_on(df, s)
                         for e, s, kw in steps(a, b, by)]


for _a, _b, _t in pairs():
  for _by in ([], ['g']):
    if _by and ({'g'} & set(_a.cols + _b.cols)):
      continue
    O.Obligation(
        'C05.shared.%s+%s.%s' % (_a.name, _b.name, ''.join(_by) or 'all'), P,
        FNS + _a.fns + _b.fns, schema(_a, _b, 'g'),
        run_shared(_a, _b, _by), spec2=run_alone(_a, _b, _by),
        needs=needs([_a, _b], _by), gen=gen(_a, _b, ['g']), n=4, tier=_t,
        may_raise=KeyError)


def list_members(a, b, by):
  def f(ms, df):
    x, y = a.build(ms), b.build(ms)
    res = ms.MetricList([x, y, x, a.build(ms)]).compute_on(df, by)
    n, k = WIDTH.get(a.name, 1), WIDTH.get(b.name, 1)
    cut, out = 0, []
    for z in (n, k, n, n):
      out.append(res.iloc[:, list(range(cut, cut + z))])
      cut += z
    return out
  return f


WIDTH = {'list': 2, 'list_mix': 4, 'list_where': 2, 'list_arith': 2,
         'dist_list': 2, 'abs_list': 2, 'mh_list': 2, 'ops_list': 2,
         'hhi_list': 2}

for _a, _b, _t in pairs():
  if _a.extra != _b.extra or _a.filters or _b.filters:
    continue  # a filter may empty a slice of one member only
  if len({'base' in z.name for z in (_a, _b)}) + len(
      {'order' in z.name for z in (_a, _b)}) > 2:
    continue  # members have different rows
  for _by in ([], ['g']):
    O.Obligation(
        'C05.members.%s+%s.%s' % (_a.name, _b.name, ''.join(_by) or 'all'), P,
        FNS + _a.fns + _b.fns, schema(_a, _b, 'g'), list_members(_a, _b, _by),
        spec2=lambda ms, df, a=_a, b=_b, by=_by: [
            e.build(ms).compute_on(df, by) for e in (a, b, a, a)],
        needs=needs([_a, _b], _by), gen=gen(_a, _b, ['g']), n=4, tier=_t,
        may_raise=KeyError)


# ------------------------------ a child that is cached slice by slice
from props import C01 as _slices  # pylint: disable=g-import-not-at-top

O.Suite('C05.custom', P, ['metrics.Metric.compute_slices',
                          'metrics.Metric.wrap_cache_key',
                          'metrics.Metric.compute_util_metric_on',
                          'utils.CacheKey.__init__'], _slices.run_custom, 48,
        what='metrics written by users that compute their children through '
        'the cache on every slice read the value of that slice')
