"""C11: jackknife standard errors equal the delete-one-unit definition."""
import contextlib
import io
import math

import numpy as np
import pandas as pd

from engine import obligation as O
from engine import spec as S
from props import C17
from props import catalog as C
from props import sqlalso

P = 'C11'
LEVEL = 'proof'
TECHNIQUE = ('contract-based deductive verification: delete-one-unit '
             'definition of the standard error against symbolic execution of '
             'the real precomputed and resampling paths, obligations '
             'discharged by z3; bounded comparison with explicit deletion for '
             'the remaining metrics')
NOTE = ('Proved for all tables: the precomputed path for additive metrics, '
        'their ratios, composites and comparisons / shares / diversity over '
        'them, with and without splits; the resampling path without splits; '
        'the agreement of both paths for the catalogue entries listed in '
        'BOTH_PATHS.  Resampling with splits, variances, models and the rest '
        'are bounded and not counted as proved.')
FNS = ['operations.Jackknife.compute_slices',
       'operations.Jackknife.precompute_sum_or_count_for_jackknife',
       'operations.Jackknife.compute_children',
       'operations.Jackknife.get_samples', 'operations.Jackknife.get_stderrs',
       'operations.MetricWithCI.compute_slices',
       'operations.MetricWithCI.compute_on_samples',
       'operations.MetricWithCI.compute_on_children',
       'operations.is_metric_precomputable', 'utils.adjust_slices_for_loo',
       'utils.get_fully_expanded_equivalent_metric_tree']


@contextlib.contextmanager
def quiet():
  with contextlib.redirect_stdout(io.StringIO()):
    yield


def flat(res):
  """{(index labels..., column): value} of an unmelted result."""
  out = {}
  names = [n for n in res.index.names if n is not None]
  for k, row in zip(res.index, res.itertuples(index=False)):
    k = (k if isinstance(k, tuple) else (k,)) if names else ()
    for c, v in zip(res.columns, row):
      out.setdefault((k, c), []).append(
          None if v is None or v != v else float(v))
  return out


def ordered(res, by):
  """Puts the split levels first in the order of by."""
  names = [n for n in res.index.names if n is not None]
  rest = [n for n in names if n not in by]
  if len(names) > 1:
    return res.reorder_levels(list(by) + rest)
  return res


def slices(df, by):
  if not by:
    return [((), df)]
  return [(k if isinstance(k, tuple) else (k,), d)
          for k, d in df.groupby(list(by), observed=True)]


def compute(m, df):
  try:
    return flat(m.compute_on(df))
  except Exception:  # pylint: disable=broad-except
    return None


def loo(child, unit, df):
  """Point estimates and leave-one-out values of one slice."""
  pt = compute(child, df)
  if pt is None:
    return None, None
  reps = {k: [] for k in pt}
  for u in df[unit].unique():
    if u is None or u != u:
      continue
    r = compute(child, df[df[unit] != u]) or {}
    for k in pt:
      v = r.get(k, [None])
      if len(v) == 1 and v[0] is not None:
        reps[k].append(v[0])
  return pt, reps


def se(v):
  n = len(v)
  if n < 2:
    return None
  m = sum(v) / n
  return math.sqrt((n - 1) / n * sum((x - m)**2 for x in v))


def same(a, b, tol=1e-7):
  if a is None or b is None:
    return a is None and b is None
  return abs(a - b) <= tol * max(1, abs(a), abs(b)) or (
      math.isinf(a) and a == b)


def table(e, rng, i, by, style):
  """Units spanning slices, small units, missing values, unit labels."""
  e2 = C.Entry.__new__(C.Entry)
  e2.__dict__.update(e.__dict__)
  lo = max(e.rows[0], 6) + 4 * len(by)
  rows = C.table(e2, rng, i, list(by) + ['u'], style == 1 and e.rows[0] < 20,
                 lo, lo + 12)
  pool = ['u%d' % k for k in range(1, rng.choice([3, 4, 6]) + 1)]
  for r in rows:
    r['u'] = rng.choice(pool)
  if style == 2 and by:  # a unit lives in one slice only
    for r in rows:
      if rng.random() < 0.6:
        r['u'] = 'u_' + str(r[by[0]])
  return rows


def run(ms, rng, i, e, kw, op=None):
  by = [[], ['g'], ['s', 'g'], ['g']][i % 4]
  by = [c for c in by if c not in e.cols]
  rows = table(e, rng, i, by, rng.randint(0, 2))
  df = O.to_df(C.schema(e, 'u', *by), rows)
  if rng.random() < 0.3:  # the type of the unit column does not matter
    df['u'] = pd.factorize(df['u'])[0] * 10
  child = e.build(ms)
  case = {'rows': rows, 'by': by, 'kw': str(kw)}
  want = {}
  if e.name in PAIRED and df.isnull().any().any():
    return None  # statistics of several columns need them all
  for k, d in slices(df, by):
    for f in e.filters:  # a part without rows has no value
      keep = d[f(d)]
      if keep.empty or any(keep[keep['u'] != u].empty
                           for u in d['u'].unique()):
        return None
    if d['u'].nunique() < 2:
      return None  # undefined in a slice with one unit
    pt, reps = loo(e.build(ms), 'u', d)
    if pt is None:
      return None
    if any(len(v) != 1 or v[0] is None or math.isinf(v[0])
           for v in pt.values()) or any(math.isinf(x) for r in reps.values()
                                        for x in r):
      return None
    for (idx, c), v in pt.items():
      want[(k + idx, c)] = (v[0], reps[(idx, c)])
  with quiet():
    res = ordered(ms.Jackknife('u', child, **kw).compute_on(df, by), by)
  got = {}
  for (k, c), v in flat(res).items():
    got.setdefault((k, c[0]), {})[c[1]] = v[0]
  if {k for k in got} != set(want):
    raise O.Mismatch('%s: rows/columns %s, expected %s' % (
        e.name, sorted(map(str, got)), sorted(map(str, want))), case)
  loose = False
  for k, (v, reps) in want.items():
    w = se(reps)
    g = got[k]
    if len(g) != 2 or list(g)[1] != 'Jackknife SE':
      raise O.Mismatch('%s: columns %s' % (e.name, list(g)), case)
    gv, gs = list(g.values())
    if not same(gv, v):
      raise O.Mismatch('%s: value at %s is %s, the metric is %s' % (
          e.name, k, gv, v), case)
    if not same(gs, w):
      raise O.Mismatch('%s: standard error at %s is %s, by deletion %s' % (
          e.name, k, gs, w), case)
  return (e.name, len(by), loose)


PAIRED = {'cov', 'cov_b', 'wcov', 'corr', 'wcorr', 'dot', 'dot_norm', 'wmean',
          'wvariance', 'wvariance_b', 'wsd_b', 'spearman', 'nth', 'nth_desc',
          'wquantile'}
CHILDREN = [n for n, e in C.CAT.items() if not e.unit and not e.rand]
SLOW = {'linreg', 'linreg_nointercept', 'ridge', 'lasso', 'elasticnet',
        'prepost', 'cuped'}
for name in CHILDREN:
  e = C.CAT[name]
  if name in SLOW:
    continue
  for tag, kw in (('', {}), ('_slow', {'enable_optimization': False})):
    O.Suite('C11.%s%s' % (name, tag), P, FNS + e.fns,
            lambda ms, rng, i, e=e, kw=kw: run(ms, rng, i, e, kw),
            30 if not tag else 10, 200,
            what='jackknife of %s = explicit deletion' % name)


# ------------------------------------------------------- for all tables
def se_of(rows, f):
  """Delete-one-unit standard error of f."""
  d = rows.deletions('u')
  n = d.sum(lambda s: S.notnull(f(s), 1))
  return d.std(f) * (n - 1) / S.sqrt(n)


def spec_of(by, label, f):
  def spec(rows):
    return S.frame(rows, by, [
        ((label, 'Value'), f),
        ((label, 'Jackknife SE'), lambda g: se_of(g, f))],
                   colnames=['Metric', None])
  return spec


NUMS = {'x': 'num', 'y': 'num', 'w': 'pos', 'u': 'key', 'g': 'key', 'h': 'key'}
BY = {'all': [], 'g': ['g'], 'gh': ['g', 'h']}


def define(id, build, label, f, kw=None, splits=('all', 'g', 'gh'),
           schema=None, gen2=None, few=None, **ob):

  for s in splits:
    by = BY[s]
    if few:
      ob['may_raise'] = few(by)
    O.Obligation(
        'C11.%s.%s' % (id, s), P, FNS, schema or NUMS,
        lambda ms, df, by=by: ms.Jackknife(
            'u', build(ms), **(kw or {})).compute_on(df, by),
        spec_of(by, label, f), gen=(gen2 or gen_units)(by), n=4, **ob)


def gen_units(by):
  def gen(rng, i):
    n = rng.choice([6, 9, 12]) * (2 if by else 1)
    return [{'x': rng.choice(O.NUMS), 'y': rng.choice(O.NUMS),
             'w': rng.choice(O.POS), 'u': rng.choice('pqr'),
             'g': rng.choice('ab'), 'h': rng.choice('cd')} for _ in range(n)]
  return gen


define('fast.sum', lambda ms: ms.Sum('x'), 'sum(x)', lambda g: g.sum('x'))
define('fast.count', lambda ms: ms.Count('x'), 'count(x)',
       lambda g: g.count('x'))
define('fast.mean', lambda ms: ms.Mean('x'), 'mean(x)', lambda g: g.mean('x'))
define('fast.dot', lambda ms: ms.Dot('x', 'y'), 'sum(x * y)',
       lambda g: g.sum(lambda r: r.x * r.y))
define('fast.ratio', lambda ms: ms.Ratio('x', 'w'), 'sum(x) / sum(w)',
       lambda g: g.sum('x') / g.sum('w'))


def few_units(kind, rows):
  return (rows.labels('u').count() < 2) if kind == 'ValueError' else False


def slow(id, build, label, f, kw=None):
  define('slow.' + id, build, label, f, kw, ('all',), may_raise=few_units)


OFF = {'enable_optimization': False}
slow('sum', lambda ms: ms.Sum('x'), 'sum(x)', lambda g: g.sum('x'), OFF)
slow('max', lambda ms: ms.Max('x'), 'max(x)', lambda g: g.max('x'))
slow('min', lambda ms: ms.Min('x'), 'min(x)', lambda g: g.min('x'))
slow('mean', lambda ms: ms.Mean('x'), 'mean(x)', lambda g: g.mean('x'), OFF)
slow('count', lambda ms: ms.Count('x'), 'count(x)', lambda g: g.count('x'),
     OFF)
slow('distinct', lambda ms: ms.Count('x', distinct=True), 'count(distinct x)',
     lambda g: g.nunique('x'))
slow('quantile', lambda ms: ms.Quantile('x', .29), 'quantile(x, 0.29)',
     lambda g: g.quantile('x', .29))
slow('variance', lambda ms: ms.Variance('x'), 'var(x)', lambda g: g.var('x'),
     OFF)
slow('ratio', lambda ms: ms.Ratio('x', 'w'), 'sum(x) / sum(w)',
     lambda g: g.sum('x') / g.sum('w'), OFF)



WSUM = lambda g: g.sum(lambda r: r.x * r.w)
WMEAN = lambda g: WSUM(g) / g.sum('w')
define('fast.wmean', lambda ms: ms.Mean('x', 'w'), 'w-weighted mean(x)', WMEAN)
define('fast.composite', lambda ms: ms.Sum('x') - 2 * ms.Mean('w'),
       'sum(x) - 2 * mean(w)', lambda g: g.sum('x') - 2 * g.mean('w'))


def relational(name, e):
  O.Obligation(
      'C11.paths.%s' % name, P, FNS + e.fns, C.schema(e, 'u'),
      lambda ms, df: ms.Jackknife('u', e.build(ms)).compute_on(df),
      spec2=lambda ms, df: ms.Jackknife(
          'u', e.build(ms), enable_optimization=False).compute_on(df),
      needs=[lambda rows: rows.labels('u').count() > 1],
      gen=lambda rng, i: table(e, rng, i, [], 0), n=2,
      opts={'absent': True, 'both_defined': True, 'rows': False})


BOTH_PATHS = set((
    'sum count count_distinct mean wmean max min dot dot_norm median '
    'wvariance wvariance_b wsd_b cov cov_b wcov wcorr ratio comp_ratio '
    'comp_mean comp_mix comp_pow list list_arith dist dist_list cumdist '
    'cumdist_desc ').split())
for _n, _e in C.CAT.items():
  if _n in BOTH_PATHS:
    relational(_n, _e)


# a child comparing with, or dividing by, other rows of the same slice
def whole(rows, by):
  """The slice of the table a group belongs to."""
  def f(g):
    return rows.at(**{k: g.keys[k] for k in by})
  return f


def with_rows(rows, f):
  def v(g):
    g.tabwide = rows
    return f(g)
  return v


def op_spec(by, label, f, extra='c', base='a', include=False):
  """f(rows of the split slice, label of the extra level) -> value."""
  def spec(rows):
    sl = whole(rows, by)

    def value(g):
      return f(sl(g), g.keys[extra])

    def err(g):
      k = g.keys[extra]
      return se_of(sl(g), lambda s: f(s, k))

    def present(g):
      e = g.exists()
      if base is None or include:
        return e
      return e & ~S.SymBool(S.sympd.lift(g.keys[extra] == base).val)

    return S.frame(rows, by + [extra], [
        ((label, 'Value'), value), ((label, 'Jackknife SE'), err)],
                   present=present, colnames=['Metric', None])
  return spec


def against(comb, f, base='a'):
  def v(s, k):
    t, b = s.at(c=k), s.at(c=base)
    return S.given(t.exists() & b.exists(), comb(f(t), f(b)))
  return v


def no_base(by, base):
  """An arm which vanishes with every unit left out is reported missing."""
  def ok(kind, rows):
    if kind not in ('KeyError', 'ValueError'):
      return False
    left = lambda arm: S.some_rows(rows, 2, lambda p, q: [
        p('u') != q('u'), arm(q('c'))] + [p(k) == q(k) for k in by])
    return ~left(lambda c: c == base) | ~left(lambda c: c != base)
  return ok


def gen_op(by):
  def gen(rng, i):
    rows = gen_units(by)(rng, i)
    for r in rows:
      r['c'] = rng.choice('abc')
    for r, c in zip(rows, 'aabbc'):
      r['c'] = c
    return rows
  return gen


def define_op(id, build, label, f, by_s=('all', 'g'), base='a',
              include=False, **ob):
  for s in by_s:
    by = BY[s]
    O.Obligation(
        'C11.fast.%s.%s' % (id, s), P, FNS, dict(NUMS, c='key'),
        lambda ms, df, by=by: ms.Jackknife('u', build(ms)).compute_on(df, by),
        op_spec(by, label, f, base=base, include=include), gen=gen_op(by), n=4,
        may_raise=no_base(by, base) if base else few(by), **ob)


DIFF = lambda v, b: v - b
PCT = lambda v, b: (v / b - 1) * 100
SUM = lambda g: g.sum('x')
MEAN = lambda g: g.mean('x')
define_op('abs_sum', lambda ms: ms.AbsoluteChange('c', 'a', ms.Sum('x')),
          'sum(x) Absolute Change', against(DIFF, SUM))
define_op('pct_sum', lambda ms: ms.PercentChange('c', 'a', ms.Sum('x')),
          'sum(x) Percent Change', against(PCT, SUM))
define_op('abs_mean', lambda ms: ms.AbsoluteChange('c', 'a', ms.Mean('x')),
          'mean(x) Absolute Change', against(DIFF, MEAN))
define_op('pct_mean', lambda ms: ms.PercentChange('c', 'a', ms.Mean('x')),
          'mean(x) Percent Change', against(PCT, MEAN))
few = lambda by: (lambda kind, rows: kind == 'KeyError' and ~S.some_rows(
    rows, 2, lambda p, q: [p('u') != q('u')] + [p(k) == q(k) for k in by]))
define_op('dist', lambda ms: ms.Distribution('c', ms.Sum('x')),
          'Distribution of sum(x)',
          lambda s, k: S.given(s.at(c=k).exists(), s.at(c=k).sum('x') /
                               s.sum('x')), base=None)

# the operation consumes the extra level, or keeps more of it
def shares(fn):
  def f(g):
    labels = g.labels('c')
    tot = labels.sum(SUM)
    return S.given(g.exists(), fn(lambda s: s.sum('x') / tot, labels))
  return f


for _n, _b, _f in (('hhi', lambda ms: ms.HHI('c', ms.Sum('x')), C17.hhi),
                   ('entropy', lambda ms: ms.Entropy('c', ms.Sum('x')),
                    C17.entropy)):
  define('fast.' + _n, _b, _n.replace('hhi', 'HHI').replace('ent', 'Ent') +
         ' of sum(x)', shares(_f), schema=dict(NUMS, c='key'), gen2=gen_op,
         splits=('g', 'gh'), few=few)
define_op('abs_base', lambda ms: ms.AbsoluteChange(
    'c', 'a', ms.Sum('x'), include_base=True), 'sum(x) Absolute Change',
          against(DIFF, SUM), include=True)
define_op('abs_ratio', lambda ms: ms.AbsoluteChange(
    'c', 'a', ms.Ratio('x', 'w')), 'sum(x) / sum(w) Absolute Change',
          against(DIFF, lambda g: g.sum('x') / g.sum('w')))
define_op('pct_wmean', lambda ms: ms.PercentChange(
    'c', 'a', ms.Mean('x', 'w')), 'w-weighted mean(x) Percent Change',
          against(PCT, WMEAN))
define_op('abs_neg', lambda ms: 2 * ms.AbsoluteChange('c', 'a', ms.Count('x')),
          '2 * count(x) Absolute Change',
          against(lambda v, b: 2 * (v - b), lambda g: g.count('x')))


# ------------------------------------------------- the same on SQL
sqlalso.also(P, sqlalso.entries('jackknife*'), sqlalso.trees('jk_*'))
