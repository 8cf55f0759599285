"""C12: bootstrap replicates resample the data as specified.

The replicates are read off the reported standard error itself: the child is a
list of Sum('code'), Sum('code')**2 and the metric of interest.  code puts one
digit (base BASE) on one row of every row/unit, so with two replicates the
difference and the sum of the two replicate sums, hence both multiplicities of
every row/unit, can be decoded exactly.  The metric is then recomputed on the
two decoded resamples with a fresh state.
"""
import math

import numpy as np
import pandas as pd

from engine import draws
from engine import obligation as O
from engine.sqlx import parse
from engine.sqlx import run as sqlrun
from props import C11
from props import C13
from props import catalog as C

P = 'C12'
LEVEL = 'proof'
TECHNIQUE = ('contract-based deductive verification: a random draw is an '
             'uninterpreted function constrained by the contract of '
             'sample/poisson; the standard deviation of the metric on the '
             'drawn rows against symbolic execution of the real '
             'get_samples/compute_slices, discharged by z3; bounded: '
             'multiplicities decoded from the reported errors, moments, SQL')
NOTE = ('Proved for all tables and all draws, with 3 replicates: by rows and '
        'by units (with and without splits), Poisson by rows, and units on '
        'preaggregated data without splits. Assumed: sample(frac=1, '
        'replace=True) returns rows of the same slice, of the size of the '
        'slice; resamples by unit are not cached (few units: bounded). '
        'Bounded: that the draws are uniform and independent, Poisson by '
        'unit, caching, SQL.')
FNS = ['operations.Bootstrap.compute_slices',
       'operations.Bootstrap.get_samples',
       'operations.PoissonBootstrap.get_samples',
       'operations.PoissonBootstrap.get_sample_weight',
       'operations.get_preaggregated_data',
       'operations.get_preaggregated_metric_tree',
       'operations.MetricWithCI.compute_slices',
       'operations.MetricWithCI.compute_on_samples',
       'operations.MetricWithCI.compute_on_children',
       'operations.MetricWithCI.get_stderrs']
SQLFNS = ['operations.bootstrap_by_row', 'operations.bootstrap_by_unit',
          'operations.Bootstrap.get_resampled_data_sql',
          'operations.Bootstrap.compute_children_sql',
          'operations.PoissonBootstrap.get_resampled_data_sql',
          'operations.get_se_sql', 'operations.get_se']
BASE = 24

METHODS = {
    'bs': ('Bootstrap', None), 'bsu': ('Bootstrap', 'u'),
    'po': ('PoissonBootstrap', None), 'pou': ('PoissonBootstrap', 'u'),
}
# Leaves of the metric of interest next to the code columns.
KIDS = {
    'sum': lambda ms: ms.Sum('x'),
    'count': lambda ms: ms.Count('x'),
    'mean': lambda ms: ms.Mean('x'),
    'max': lambda ms: ms.Max('x'),
    'min': lambda ms: ms.Min('x'),
    'ratio': lambda ms: ms.Ratio('x', 'w'),
    'variance': lambda ms: ms.Variance('x'),
    'wmean': lambda ms: ms.Mean('y', 'w'),
    'dot': lambda ms: ms.Dot('y', 'w'),
    'cov': lambda ms: ms.Cov('y', 'w'),
    'cv': lambda ms: ms.CV('w'),
    'where': lambda ms: ms.Sum('x', where='y > 1') / ms.Count(
        'y', where='y < 4'),
    'distinct': lambda ms: ms.Count('x', distinct=True),
    'median': lambda ms: ms.Quantile('y', 0.5),
    'nullx': lambda ms: ms.Mean('x') * ms.Count('x') - ms.Sum('w'),
}
MINMAX = {
    'both': lambda ms: ms.Max('x') - ms.Min('y'),
}
KIDS.update(MINMAX)


def child(ms, kid):
  return ms.MetricList([ms.Sum('code', name='p'),
                        ms.Sum('code', name='q')**2, KIDS[kid](ms)])


def decode(v):
  out = []
  while v:
    out.append(v % BASE)
    v //= BASE
  return out


def near_int(x, tol=1e-3):
  return abs(x - round(x)) < tol


def split_of(df, by):
  if not by:
    return {(): df}
  return {(k if isinstance(k, tuple) else (k,)): d
          for k, d in df.groupby(list(by), observed=True)}


def make(rng, i, unit, by, kid, nulls):
  n_unit = rng.choice([2, 3, 4, 4])
  rows = []
  slices = [()] if not by else [
      tuple(rng.choice(['a', 'b', 'c']) for _ in by) for _ in range(2)]
  for s in sorted(set(slices)):
    units = ['u%d' % k for k in range(n_unit)]
    for u in units:
      for _ in range(rng.choice([1, 1, 2, 3]) if unit else 1):
        r = dict(zip(by, s), u=u, w=rng.choice(O.POS))
        for c in 'xy':
          r[c] = rng.choice(O.NUMS) + rng.choice([0, 0.125])
        if nulls and rng.random() < 0.2:
          r['x'] = None
        rows.append(r)
  rng.shuffle(rows)
  # one digit for every unit (row) of a slice
  digit = {}
  for r in rows:
    k = tuple(r[b] for b in by)
    d = digit.setdefault(k, {})
    key = r['u'] if unit else len(d)
    r['code'] = 0.0
    if key not in d:
      d[key] = len(d)
      r['code'] = float(BASE**d[key])
    r['id'] = key
  return rows


def read(res, by):
  """{slice: [(column, value, se)]}"""
  out = {}
  for (k, c), v in C11.flat(C11.ordered(res, by)).items():
    out.setdefault(k, {}).setdefault(c[0], []).append(v[0])
  return out


def no_value(d, kid, sql):
  """A part of the metric has no rows or, on SQL, no values."""
  if d.empty:
    return True
  parts = [d]
  if kid == 'where':
    parts = [d[d['y'] > 1], d[d['y'] < 4]]
  return any(q.empty or (sql and q['x'].isnull().all()) for q in parts)


def check_slices(name, label, got, df, by, kid, ms, case, poisson, sql=False):
  parts = split_of(df, by)
  if set(got) != set(parts):
    raise O.Mismatch('%s: slices %s, expected %s' % (
        name, sorted(got), sorted(parts)), case)
  for k, d in parts.items():
    cols = list(got[k].values())
    if len(cols) != 3 or any(len(c) != 2 for c in cols):
      raise O.Mismatch('%s: columns %s' % (name, list(got[k])), case)
    if no_value(d, kid, sql):
      continue
    want = C11.compute(child(ms, kid), d)
    for (v, _), w in zip(cols, want.values()):
      if w[0] is not None and math.isinf(w[0]):
        continue  # a zero denominator
      if not C11.same(v, w[0]):
        raise O.Mismatch('%s: the value at %s is %s, the metric is %s' % (
            name, k, v, w[0]), case)
    if cols[0][1] is None:
      if not poisson:
        raise O.Mismatch('%s: no standard error at %s' % (name, k), case)
      continue
    diff = cols[0][1] * math.sqrt(2)
    sq = cols[1][1] * math.sqrt(2)
    if not near_int(diff):
      raise O.Mismatch('%s: the error at %s is not that of 2 resamples of '
                       'the rows' % (name, k), case)
    if round(diff) == 0:
      if cols[2][1] not in (None, 0) and abs(cols[2][1]) > 1e-9:
        raise O.Mismatch('%s: equal resamples with different values' % name,
                         case)
      continue
    tot = sq / diff
    if not near_int(tot):
      raise O.Mismatch('%s: the columns at %s come from different resamples'
                       % (name, k), case)
    v = [(round(tot) + round(diff)) / 2, (round(tot) - round(diff)) / 2]
    if any(x != int(x) or x < 0 for x in v):
      raise O.Mismatch('%s: resample sums %s at %s' % (name, v, k), case)
    ms_ = [decode(int(x)) for x in v]
    n = d['id'].nunique()
    ses = []
    empty = False
    for m in ms_:
      m = m + [0] * (n - len(m))
      if len(m) > n or (not poisson and sum(m) != n):
        raise O.Mismatch('%s: multiplicities %s of the %d units/rows at %s' % (
            name, m, n, k), case)
      order = d[d['code'] > 0].sort_values('code')['id']
      times = dict(zip(order, m))
      idx = np.repeat(np.arange(len(d)), [times[z] for z in d['id']])
      r = C11.compute(KIDS[kid](ms), d.iloc[idx]) if len(idx) else None
      empty |= no_value(d.iloc[idx], kid, sql)
      ses.append(list(r.values())[0][0] if r else None)
    if empty:
      continue  # no rows, no value
    if None in ses:
      if cols[2][1] is not None:
        raise O.Mismatch('%s: an error at %s without two values' % (name, k),
                         case)
      continue
    w = abs(ses[0] - ses[1]) / math.sqrt(2)
    if any(math.isinf(z) for z in ses):
      continue
    if not C11.same(cols[2][1], w, 1e-6):
      raise O.Mismatch(
          '%s: the error at %s is %s; the metric on the two resamples %s is '
          '%s' % (name, k, cols[2][1], ms_, ses), case)


def run(ms, rng, i, method, kid, opt):
  cls, unit = METHODS[method]
  by = [[], ['g'], ['s', 'g'], ['g']][i % 4]
  nulls = i % 3 == 0 and kid not in ('cov', 'dot', 'wmean', 'cv')
  rows = make(rng, i, unit, by, kid, nulls)
  df = pd.DataFrame(rows)
  df['x'] = df['x'].astype(float)
  if rng.random() < .3:
    df['u'] = pd.factorize(df['u'])[0]
    df['id'] = df['u'] if unit else df['id']
  if rng.random() < .5:  # the labels of the rows don't matter
    df.index = rng.sample(range(100), len(df)) if rng.random() < .5 else (
        [0] * len(df))
  cols = ['code', 'x', 'y', 'w', 'u'] + by
  rng.shuffle(cols)
  data = df[cols]
  seed = rng.randint(0, 10**6)
  case = {'rows': rows, 'by': by, 'seed': seed}

  def go(seed):
    np.random.seed(seed)
    with C11.quiet():
      return getattr(ms, cls)(unit, child(ms, kid), 2,
                              enable_optimization=opt).compute_on(data, by)
  try:
    res = go(seed)
  except ValueError as e:
    if cls != 'Bootstrap' and 'No objects to concatenate' in str(e):
      return None  # all resamples are empty
    raise
  name = '%s(%s, %s)' % (cls, unit, kid)
  check_slices(name, cls, read(res, by), df, by, kid, ms, case,
               cls != 'Bootstrap')
  again = go(seed)
  if not again.equals(res):
    raise O.Mismatch('%s: another result for the same random state' % name,
                     case)
  return (name, len(by), opt)


for _m in METHODS:
  for _k in KIDS:
    for _o in (True, False):
      if not METHODS[_m][1] and not _o:
        continue
      O.Suite('C12.%s.%s%s' % (_m, _k, '' if _o else '_slow'), P, FNS,
              lambda ms, rng, i, m=_m, k=_k, o=_o: run(ms, rng, i, m, k, o),
              8, 150, what='resamples of %s of %s' % (_m, _k))


def ops_run(ms, rng, i, method, opt):
  """Comparisons: a unit may be in several conditions and comes as a whole."""
  cls, unit = METHODS[method]
  by = [[], ['g']][i % 2]
  rows = []
  for s in [()] if not by else [('a',), ('b',)]:
    for j in range(rng.choice([2, 3, 4])):
      rows.append(dict(zip(by, s), u='u%d' % j, c='t', code=float(BASE**j),
                       x=rng.choice(O.NUMS), w=rng.choice(O.POS), id=j))
      for _ in range(rng.randint(0, 2)):
        rows.append(dict(zip(by, s), u='u%d' % j, c=rng.choice(['k', 't']),
                         code=0., x=rng.choice(O.NUMS), w=rng.choice(O.POS),
                         id=j))
    rows.append(dict(zip(by, s), u='u0', c='k', code=0., x=1., w=2., id=0))
  rng.shuffle(rows)
  df = pd.DataFrame(rows)
  seed = rng.randint(0, 10**6)
  case = {'rows': rows, 'by': by, 'seed': seed}
  kind = rng.choice(['abs', 'dist'])
  # Operations over a list that carries the code next to the metric.
  inner = lambda: [ms.Sum('x'), ms.Mean('w'), ms.Max('x'), ms.Sum(
      'x', where='w > 1') / ms.Sum('w')][i % 4]
  lst = lambda: ms.MetricList([ms.Sum('code', name='p'),
                               ms.Sum('code', name='q')**2, inner()])
  tree = lambda m: ms.AbsoluteChange('c', 'k', m)
  np.random.seed(seed)
  try:
    with C11.quiet():
      res = C11.ordered(getattr(ms, cls)(unit, tree(
          lst()), 2, enable_optimization=opt).compute_on(df, by), by)
  except ValueError as e:
    if 'No objects to concatenate' in str(e):
      return None  # no resample has the baseline
    raise
  got = {}
  for (k, c), v in C11.flat(res).items():
    if k[-1] == 't':
      got.setdefault(k[:-1], {}).setdefault(c[0], []).append(v[0])
  for k, d in split_of(df, by).items():
    cols = list(got.get(k, {}).values())
    if len(cols) != 3:
      raise O.Mismatch('comparison at %s has %s' % (k, got.get(k)), case)
    if cols[0][1] is None:
      continue  # a resample without one of the conditions
    diff = cols[0][1] * math.sqrt(2)
    sq = cols[1][1] * math.sqrt(2)
    if not near_int(diff) or (round(diff) and not near_int(sq / diff)):
      raise O.Mismatch('%s of a comparison: no common resamples at %s' % (
          cls, k), case)
    if round(diff) == 0:
      continue
    tot = round(sq / diff)
    ses = []
    for x in ((tot + round(diff)) // 2, (tot - round(diff)) // 2):
      n = d['id'].nunique()
      m = decode(x)
      m = m + [0] * (n - len(m))
      if len(m) > n or (cls == 'Bootstrap' and sum(m) != n):
        raise O.Mismatch('%s of a comparison: multiplicities %s of %d units '
                         'at %s' % (cls, m, n, k), case)
      idx = np.repeat(np.arange(len(d)), [m[z] for z in d['id']])
      d2 = d.iloc[idx]
      r = C11.compute(tree(inner()), d2) or {}
      if i % 4 == 3 and any(
          d2[(d2['c'] == c) & (d2['w'] > 1)].empty for c in 'kt'):
        r = None  # the filter leaves nothing
        break
      ses.append(next((v[0] for (q, _), v in r.items() if q == ('t',)), None))
    if r is None:
      continue
    if None in ses:
      ok = cols[2][1] is None
      w = None
    else:
      w = abs(ses[0] - ses[1]) / math.sqrt(2)
      ok = C11.same(cols[2][1], w, 1e-6)
    if not ok:
      raise O.Mismatch('%s of a comparison: the error at %s is %s, on the '
                       'decoded resamples %s' % (cls, k, cols[2][1], w), case)
  return (cls, opt, len(by), i % 4)


for _m in ('bsu', 'pou'):
  for _o in (True, False):
    O.Suite('C12.%s.compare%s' % (_m, '' if _o else '_slow'), P, FNS,
            lambda ms, rng, i, m=_m, o=_o: ops_run(ms, rng, i, m, o), 24, 300,
            what='whole units are resampled across conditions')


def stat_run(ms, rng, i, method, opt):
  """Moments of the multiplicities."""
  cls, unit = METHODS[method]
  poisson = cls != 'Bootstrap'
  n = rng.choice([2, 3, 5, 8, 12])
  by = [[], ['g']][i % 2]
  rows = []
  for s in [()] if not by else [('a',), ('b',)]:
    for j in range(n):
      for _ in range(rng.choice([1, 2]) if unit else 1):
        r = dict(zip(by, s), u='u%d' % j, f=rng.random() < .5)
        r['z'] = 1. if not [q for q in rows if q['u'] == r['u'] and all(
            q[b] == r[b] for b in by)] else 0.
        rows.append(r)
  df = pd.DataFrame(rows)
  for k in range(2):
    df['i%d' % k] = np.where(df['u'] == 'u%d' % k, df['z'], 0.)
  df['both'] = df['i0'] + df['i1']
  reps = 1000
  seed = rng.randint(0, 10**6)
  case = {'rows': rows, 'by': by, 'seed': seed, 'n': n}
  np.random.seed(seed)
  # One metric at a time: lists get slow with many cached resamples.
  sums = {}
  for c in ('i0', 'both', 'z'):
    with C11.quiet():
      res = getattr(ms, cls)(unit, ms.Sum(c), reps, enable_optimization=opt
                             ).compute_on(df, by)
    for k, cols in read(res, by).items():
      sums.setdefault(k, []).extend(x[1]**2 for x in cols.values())
  for k, v in sums.items():
    if poisson:
      want = [1, 2, n]
    else:
      want = [1 - 1 / n, 2 * (1 - 1 / n) - 2 / n, 0]
    for a, b, what in zip(v, want, ('a unit', 'two units', 'all')):
      tol = 6 * math.sqrt((2 * b * b + 2 * b) / reps) + 1e-9
      if abs(a - b) > tol:
        raise O.Mismatch(
            '%s(%s): the variance of the multiplicity of %s of %d is %.3f at '
            '%s, expected %.3f +- %.3f' % (cls, unit, what, n, a, k, b, tol),
            case)
  return (method, n, len(by), opt)


for _m in METHODS:
  for _o in (True, False):
    O.Suite('C12.moments.%s%s' % (_m, '' if _o else '_slow'), P, FNS,
            lambda ms, rng, i, m=_m, o=_o: stat_run(ms, rng, i, m, o), 3, 20,
            what='variances and covariances of multiplicities')


@O.suite('C12.replicates', P, FNS, 40, 400)
def replicates(ms, rng, i):
  """Every replicate is computed once, the error is their sample sd."""
  cls, unit = METHODS[sorted(METHODS)[i % 4]]
  n = rng.choice([2, 3, 5, 9])
  seen = []

  class Probe(ms.Metric):
    """A user-defined metric that notes what it is computed on."""

    def __init__(self):
      super(Probe, self).__init__('probe')

    def compute(self, df):
      seen.append(df)
      return float((df['x'] * (1 + df['row'] % 3)).sum())
  rows = [{'x': rng.choice(O.NUMS), 'u': 'u%d' % rng.randint(0, 9), 'row': j,
           'z': j + .5} for j in range(rng.randint(8, 14))]
  df = pd.DataFrame(rows)
  case = {'rows': rows, 'n': n, 'unit': unit, 'cls': cls}
  np.random.seed(rng.randint(0, 10**6))
  with C11.quiet():
    res = getattr(ms, cls)(unit, Probe(), n).compute_on(df)
  pt, se = res.iloc[0].tolist()
  vals = [float((d['x'] * (1 + d['row'] % 3)).sum()) for d in seen]
  if df['u'].nunique() < 7 and unit:
    return None  # repeated resamples may be shared
  if len(seen) != n + 1:
    raise O.Mismatch('%s: %d computations for %d replicates' % (
        cls, len(seen), n), case)
  full = [j for j, d in enumerate(seen) if d['row'].tolist() == list(
      range(len(df)))]
  if not full or not C11.same(pt, vals[full[0]]):
    raise O.Mismatch('%s: the value is %s' % (cls, pt), case)
  drop = full[0] if len(full) == 1 else next(
      (j for j in full if j in (0, n)), full[0])
  reps = vals[:drop] + vals[drop + 1:]
  want = float(np.std(reps, ddof=1))
  if not C11.same(se, want):
    raise O.Mismatch('%s: the error is %s, the replicates have %s' % (
        cls, se, want), case)
  for d in seen[:drop] + seen[drop + 1:]:
    ct = d['row'].value_counts()
    if any((d['z'] != d['row'] + .5)) or any(
        d['x'].iloc[q] != rows[r]['x'] or d['u'].iloc[q] != rows[r]['u']
        for q, r in enumerate(d['row'])):
      raise O.Mismatch('%s: a resample has rows that are not in the data'
                       % cls, case)
    if unit:
      per = df['u'].groupby(df['row']).first()
      by_unit = {}
      for r in range(len(df)):
        by_unit.setdefault(per[r], set()).add(int(ct.get(r, 0)))
      if any(len(v) > 1 for v in by_unit.values()):
        raise O.Mismatch('%s: a unit is split: %s' % (cls, by_unit), case)
      size = sum(min(v) for v in by_unit.values())
      n_u = df['u'].nunique()
    else:
      size, n_u = len(d), len(df)
    if cls == 'Bootstrap' and size != n_u:
      raise O.Mismatch('Bootstrap: %d of %d units/rows' % (size, n_u), case)
  return (cls, unit, n)


@O.suite('C12.shared', P, FNS, 12, 200)
def shared(ms, rng, i):
  """Bootstraps computed together do not share resamples they must not."""
  cls = ['Bootstrap', 'PoissonBootstrap'][i % 2]
  opt = bool(i // 2 % 2)
  kind = ['unit', 'where', 'method'][i // 4 % 3]
  n = 2
  rows = [{'x': rng.choice(O.NUMS), 'u': j % n, 'v': (j // n) % n,
           'y': rng.choice(O.NUMS)} for j in range(8)]
  df = pd.DataFrame(rows)
  case = {'rows': rows, 'cls': cls, 'kind': kind}
  reps = 500
  B = getattr(ms, cls)
  a = lambda: B('u', ms.Sum('x'), reps, enable_optimization=opt)
  if kind == 'unit':
    b = lambda: B('v', ms.Sum('x'), reps, enable_optimization=opt)
  elif kind == 'where':
    b = lambda: B('u', ms.Sum('x'), reps, enable_optimization=opt,
                  where='y > 1')
  else:
    other = ms.PoissonBootstrap if cls == 'Bootstrap' else ms.Bootstrap
    b = lambda: other('v', ms.Sum('x'), reps, enable_optimization=opt)

  def truth(poisson, col, d):
    t = d.groupby(col)['x'].sum()
    if poisson:
      return math.sqrt((t**2).sum())
    return math.sqrt(len(t)) * float(np.std(t))
  p = cls == 'PoissonBootstrap'
  d2 = df[df['y'] > 1] if kind == 'where' else df
  if d2.empty or d2['u'].nunique() < 2:
    return None
  wants = [truth(p, 'u', df), truth(p != (kind == 'method'),
                                    'u' if kind == 'where' else 'v', d2)]
  np.random.seed(rng.randint(0, 10**6))
  with C11.quiet():
    res = ms.MetricList([a(), b()]).compute_on(df)
  got = [v for c, v in zip(res.columns, res.iloc[0]) if 'SE' in c[-1]]
  for g, w in zip(got, wants):
    if abs(g - w) > 0.25 * w + 1e-9:
      raise O.Mismatch('%s next to another bootstrap: error %s, expected '
                       'about %s' % (cls, g, w), case)
  return (cls, opt, kind)


@O.suite('C12.randomness', P, FNS, 20, 200)
def randomness(ms, rng, i):
  """Different random states give different replicates."""
  cls, unit = METHODS[sorted(METHODS)[i % 4]]
  rows = [{'x': float(2**j), 'u': 'u%d' % j} for j in range(9)]
  df = pd.DataFrame(rows)
  out = set()
  for s in range(3):
    np.random.seed(rng.randint(0, 10**6))
    with C11.quiet():
      r = getattr(ms, cls)(unit, ms.Sum('x'), 6).compute_on(df)
      r2 = getattr(ms, cls)(unit, ms.Sum('x'), 6).compute_on(df)
    out |= {r.iloc[0, 1], r2.iloc[0, 1]}
  if len(out) < 3:
    raise O.Mismatch('%s: errors %s for different random states' % (cls, out))
  return (cls, unit)


# --------------------------------------------------------------------- SQL
SQLKIDS = ['sum', 'count', 'mean', 'max', 'ratio', 'variance', 'where', 'cov',
           'nullx']


def sql_run(ms, rng, i, method, kid, mode):
  cls, unit = METHODS[method]
  by = [[], ['g']][i % 2]
  nulls = i % 3 == 0 and kid != 'cov'
  rows = make(rng, i, unit, by, kid, nulls)
  df = pd.DataFrame(rows)
  df['x'] = df['x'].astype(float)
  case = {'rows': rows, 'by': by, 'mode': mode}
  ex = C13.Exec(df[['code', 'x', 'y', 'w', 'u'] + by], rng.randint(0, 10**6))
  opt = bool(i // 2 % 2)
  try:
    res = getattr(ms, cls)(unit, child(ms, kid), 2, enable_optimization=opt
                           ).compute_on_sql('T', by, execute=ex, mode=mode)
  except Exception as e:  # pylint: disable=broad-except
    if ex.unsupported or mode and cls != 'Bootstrap' and len(df) <= 8:
      return None  # all resamples of a batch may be empty
    raise O.Mismatch('%s(%s, %s) on SQL raises %s' % (
        cls, unit, kid, str(e)[:300]), case)
  case['sql'] = ex.log[-1:]
  check_slices('%s(%s, %s) on SQL' % (cls, unit, kid), cls, read(res, by), df,
               by, kid, ms, case, cls != 'Bootstrap', True)
  return (cls, unit, kid, mode, len(by))


for _m in METHODS:
  for _k in SQLKIDS:
    for _mode in (None, 'mixed'):
      if _mode and _m != 'pou':
        continue  # every part has its own query, hence resamples; see below
      O.Suite('C12.sql.%s.%s.%s' % (_m, _k, _mode or 'sql'), P, SQLFNS,
              lambda ms, rng, i, m=_m, k=_k, mode=_mode: sql_run(
                  ms, rng, i, m, k, mode), 6, 60,
              what='resamples drawn by the generated SQL')


@O.suite('C12.sql.mixed_single', P, SQLFNS, 24, 200)
def mixed_single(ms, rng, i):
  """Resamples of the queries of the mixed mode."""
  m = sorted(METHODS)[i % 4]
  cls, unit = METHODS[m]
  by = [[], ['g']][i // 4 % 2]
  rows = make(rng, i, unit, by, 'sum', False)
  df = pd.DataFrame(rows)
  case = {'rows': rows, 'by': by}
  ex = C13.Exec(df[['code', 'x', 'y', 'w', 'u'] + by], rng.randint(0, 10**6))
  n_rep = 2
  kw = {'batch_size': 1} if i % 3 == 0 else {}
  try:
    res = getattr(ms, cls)(unit, ms.Sum('code'), n_rep).compute_on_sql(
        'T', by, execute=ex, mode='mixed', **kw)
  except Exception as e:  # pylint: disable=broad-except
    if ex.unsupported or cls != 'Bootstrap' and len(df) <= 8:
      return None  # all resamples of a batch may be empty
    raise O.Mismatch('%s(%s) in mixed mode raises %s' % (cls, unit, e), case)
  got = read(res, by)
  parts = split_of(df, by)
  for k, d in parts.items():
    (c,) = got[k].values()
    if not C11.same(c[0], d['code'].sum()):
      raise O.Mismatch('%s: value %s at %s' % (cls, c[0], k), case)
    if c[1] is None:
      if cls == 'Bootstrap':
        raise O.Mismatch('%s: no error at %s' % (cls, k), case)
      continue
    diff = round(c[1] * math.sqrt(2))
    if not near_int(c[1] * math.sqrt(2)):
      raise O.Mismatch('%s in mixed mode: not 2 resamples' % cls, case)
    n = d['id'].nunique()
    dig = []
    for _ in range(n):
      z = (diff + BASE // 2) % BASE - BASE // 2
      dig.append(z)
      diff = (diff - z) // BASE
    if diff or (cls == 'Bootstrap' and (sum(dig) or any(
        abs(z) > n for z in dig))):
      raise O.Mismatch('%s in mixed mode: differences %s of multiplicities of '
                       '%d units/rows' % (cls, dig, n), case)
  return (cls, unit, len(by), str(kw))


@O.suite('C12.sql.mixed_parts', P, SQLFNS, 6, 12)
def mixed_parts(ms, rng, i):
  """All parts of a metric are computed on the same resamples."""
  m = ['bs', 'bsu', 'po'][i % 3]
  cls, unit = METHODS[m]
  df = pd.DataFrame([{'x': float(2**j), 'w': float(2**j), 'u': 'u%d' % (j // 2)}
                     for j in range(8)])
  ex = C13.Exec(df, i)
  res = getattr(ms, cls)(unit, ms.Sum('x') / ms.Sum('w'), 3).compute_on_sql(
      'T', execute=ex, mode='mixed')
  if abs(res.iloc[0, 1]) > 1e-9:
    raise O.Mismatch('%s(%s, Sum(x) / Sum(w) with x = w) in mixed mode has error %s' % (
        cls, unit, res.iloc[0, 1]), {'cls': cls, 'unit': unit},
                     'C12-mixed-resamples')
  return (m,)


@O.suite('C12.sql.hash', P, SQLFNS, 8, 16)
def hashed(ms, rng, i):
  """Every unit of a slice has its own weight in every replicate."""
  by = [[], ['g']][i % 2]
  opt = i // 2 % 2 == 0
  df = pd.DataFrame([{'x': rng.choice(O.POS), 'g': g, 'u': u}
                     for g in ('1', '11') for u in ('1', '11', '111')])
  m = ms.PoissonBootstrap('u', ms.Sum('x'), 12, enable_optimization=opt)
  ex = C13.Exec(df, i)
  with sqlrun.hashes() as seen:
    m.compute_on_sql('T', by, execute=ex, mode=[None, 'mixed'][i // 4 % 2])
  want = 12 * len(df[by + ['u']].drop_duplicates())
  if seen and len(set(seen)) < want:
    raise O.Mismatch('PoissonBootstrap uses %d hashed keys for %d weights' % (
        len(set(seen)), want), {'by': by, 'units': sorted(set(df['u'])),
                                'replicates': 12})
  return (len(by), opt)


def reachable(n):
  """Variances of n numbers in {0, 1, 2}."""
  out = []
  for a in range(n + 1):
    for b in range(n + 1 - a):
      v = [0] * a + [1] * b + [2] * (n - a - b)
      mu = sum(v) / n
      out.append(sum((x - mu)**2 for x in v) / (n - 1))
  return out


@O.suite('C12.count', P, FNS + SQLFNS, 240, 2400,
         what='the error is that of exactly n_replicates replicates')
def count(ms, rng, i):
  """Two units 0 and 1: the variance of n replicates lies in a finite set."""
  n = [3, 3, 2, 5][i % 4]
  mode = [None, 'mixed', 'df'][i // 4 % 3]
  unit = [None, 'u'][i // 12 % 2]
  by = [[], ['g']][i // 24 % 2]
  df = pd.DataFrame({'x': [0., 1.] * 2, 'u': [1, 2] * 2,
                     'g': ['p', 'p', 'q', 'q']})
  if not by:
    df = df[:2]
  m = ms.Bootstrap(unit, ms.Sum('x'), n)
  kw = {}
  if mode != 'df' and rng.random() < .7:
    kw['batch_size'] = rng.randint(1, n + 1)
  case = {'n': n, 'mode': mode, 'unit': unit, 'by': by, 'kw': str(kw)}
  ex = C13.Exec(df, rng.randint(0, 10**6))
  try:
    if mode == 'df':
      res = m.compute_on(df, by)
    else:
      res = m.compute_on_sql('T', by, execute=ex, mode=mode, **kw)
  except Exception as e:  # pylint: disable=broad-except
    if ex.unsupported:
      return None
    raise O.Mismatch('Bootstrap raises %s' % e, case)
  for se in res.iloc[:, 1]:
    if by and unit and se != se:
      continue  # the resampled units may miss a slice
    if not any(abs(float(se)**2 - v) < 1e-9 for v in reachable(n)):
      raise O.Mismatch('the squared error %s is not the variance of %d '
                       'resamples' % (float(se)**2, n), case)
  return tuple(sorted((k, str(v)) for k, v in case.items()))


# ------------------------------------------------------------------ deductive
def reference(m, draw, n, by, column):
  """The documented result: value and standard deviation of the replicates."""

  def spec2(ms, df):
    import pandas as pd
    draws.check_count(n)
    child = m(ms)
    res = child.compute_on(df, by, melted=True).copy()
    reps = [m(ms).compute_on(draw(df, i), by, melted=True) for i in range(n)]
    res[column] = pd.concat(reps, axis=1).std(axis=1)
    return res

  return spec2


METHODS_PREFIX = {'Bootstrap': 'Bootstrap',
                  'PoissonBootstrap': 'Poisson Bootstrap'}


def spread(unit, by, n):
  """Resamples of units are not likely to repeat (else they are cached)."""
  if not unit:
    return []

  def need(rows):
    c = rows.labels(*(list(by) + [unit])).count()
    return (math.log(n) / c <= np.log(c)) & (c > 1)

  return [need]


def define(name, m, by, unit=None, n=3, cls='Bootstrap', tag=None, **kw):
  by = list(by)

  def impl(ms, df):
    for attempt in range(20):
      draws.reset(df, attempt)
      b = getattr(ms, cls)(unit, m(ms), n, **kw)
      try:
        return b.compute_on(df, by or None, melted=True)
      except Exception:  # pylint: disable=broad-except
        if not draws.empty():
          raise

  def draw(df, i):
    if cls == 'PoissonBootstrap':
      return draws.weighted(df, i)
    if unit is None:
      return draws.rows(df, i, by)
    return draws.units(df, i, unit, by)

  needs = spread(unit, by, n)
  kind = 'units' if unit else 'rows'
  O.Obligation('C12.%s.%s.%s' % (
      tag or kind if cls == 'Bootstrap' else 'poisson', name, ''.join(by) or 'all'),
               P, FNS, dict({'x': 'num', 'w': 'pos', 'g': 'key', 'u': 'key'},
                            **({'c': 'key'} if name in OPS else {})),
               impl, spec2=reference(
                   m, draw, n, by or None,
                   METHODS_PREFIX[cls] + ' SE'), needs=needs, n=6)


METRICS = {
    'abstract': lambda ms: ms.Abstract('M1', ('x', 'w')),
    'missing': lambda ms: ms.Abstract('N1', ('x',)),
    'sum': lambda ms: ms.Sum('x'),
    'mean': lambda ms: ms.Mean('x', 'w'),
    'ratio': lambda ms: ms.Sum('x') / ms.Sum('w'),
    'list': lambda ms: ms.MetricList([ms.Sum('x'), ms.Max('w')]),
    'filter': lambda ms: ms.Sum('x', where='w > 1'),
}
OPS = {
    'distribution': lambda ms: ms.Distribution('c', ms.Sum('w')),
    'cumulative': lambda ms: ms.CumulativeDistribution('c', ms.Sum('w')),
}
for _n, _m in OPS.items():
  for _by in ([], ['g']):
    if not _by:
      define(_n, _m, _by)
    define(_n, _m, _by, 'u', enable_optimization=False)
    define(_n, _m, _by, cls='PoissonBootstrap')
for _n, _m in METRICS.items():
  for _by in ([], ['g']):
    if _n == 'filter' and _by:
      continue
    define(_n, _m, _by)
    define(_n, _m, _by, 'u', enable_optimization=False)
    define(_n, _m, _by, cls='PoissonBootstrap')
    if not _by or _n in ('abstract', 'missing'):
      define(_n, _m, _by, 'u', tag='preaggregated')
