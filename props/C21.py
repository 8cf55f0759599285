"""C21: confidence intervals follow from the standard errors."""
import math

import numpy as np
from scipy import stats

from engine import draws
from engine import obligation as O
from engine import spec as S
from props import C01
from props import C11
from props import C12
from props import catalog as C
from props import sqlalso

P = 'C21'
LEVEL = 'proof'
TECHNIQUE = ('contract-based deductive verification: jackknife intervals '
             'against value -/+ t quantile x delete-one standard error by '
             'symbolic execution of the real code and z3 (the t quantile is '
             'an uninterpreted function), and bootstrap intervals over '
             'ghost draws; bounded comparison on SQL and for the rest')
NOTE = ('Proved for all tables: intervals of Jackknife over sums, means, '
        'ratios, extremes and comparisons, the base values kept for '
        'display, and, for all draws too, Bootstrap and Poisson bootstrap '
        'intervals of sums, ratios, lists and opaque metrics (three '
        'replicates, enable_optimization off for units).  Bootstraps of '
        'other trees are compared with the standard errors of the same seed '
        '(bounded, not counted as proved).')
FNS = ['operations.MetricWithCI.compute_slices',
       'operations.MetricWithCI.compute_ci',
       'operations.MetricWithCI.get_stderrs_or_ci_half_width',
       'operations.MetricWithCI.get_ci_width',
       'operations.MetricWithCI.compute_change_base',
       'operations.MetricWithCI.manipulate',
       'operations.MetricWithCI.add_base_to_res',
       'operations.MetricWithCI.compute_point_estimate']
METHODS = {
    'jk': ('Jackknife', lambda ms, c, **k: ms.Jackknife('u', c, **k)),
    'jk_slow': ('Jackknife', lambda ms, c, **k: ms.Jackknife(
        'u', c, enable_optimization=False, **k)),
    'bs': ('Bootstrap', lambda ms, c, **k: ms.Bootstrap(None, c, 7, **k)),
    'bsu': ('Bootstrap', lambda ms, c, **k: ms.Bootstrap('u', c, 7, **k)),
    'po': ('Poisson Bootstrap', lambda ms, c, **k: ms.PoissonBootstrap(
        'u', c, 7, **k)),
}


def split(res, by):
  """{(index, metric): {column: value}} of an unmelted result."""
  out = {}
  for (k, c), v in C11.flat(C11.ordered(res, by)).items():
    out.setdefault((k, c[0]), {})[c[1]] = v[0]
  return out


def run(ms, rng, i, e, name):
  label, build = METHODS[name]
  by = [[], ['g'], ['s', 'g'], ['g']][i % 4]
  by = [c for c in by if c not in e.cols]
  rows = C11.table(e, rng, i, by, 0)
  rows = rows + [dict(r) for r in rows]
  df = O.to_df(C.schema(e, 'u', *by), rows)
  for _, d in C11.slices(df, by):
    if d['u'].nunique() < 2 or any(d[f(d)].empty for f in e.filters):
      return None
  conf = rng.choice([0.5, 0.9, 0.95, 0.99])
  case = {'rows': rows, 'by': by, 'confidence': conf}
  seed = rng.randint(0, 999)

  def go(melted=False, **k):
    np.random.seed(seed)
    with C11.quiet():
      return build(ms, e.build(ms), **k).compute_on(df, by, melted=melted)
  try:
    plain = go()
  except Exception:  # pylint: disable=broad-except
    return None
  r_ci = go(confidence=conf)
  se, ci = split(plain, by), split(r_ci, by)
  pt = C11.flat(C11.ordered(e.build(ms).compute_on(df, by), by))
  if set(se) != set(ci) or set(ci) != set(pt):
    raise O.Mismatch('%s of %s: rows/columns %s, metric %s' % (
        label, e.name, sorted(map(str, ci)), sorted(map(str, pt))), case)
  # degrees of freedom: replicates that yield a value, minus one
  n_of = {}
  if label == 'Jackknife':
    for k, d in C11.slices(df, by):
      p, reps = C11.loo(e.build(ms), 'u', d)
      for (idx, c), v in (reps or {}).items():
        n_of[(k + idx, c)] = len(v)
  lo, up = label + ' CI-lower', label + ' CI-upper'
  for k, v in ci.items():
    if sorted(v) != sorted([list(v)[0], lo, up]) or list(v)[1:] != [lo, up]:
      raise O.Mismatch('%s of %s: columns %s' % (label, e.name, list(v)), case)
    val = list(v.values())[0]
    sval, s = list(se[k].values())
    if len(pt[k]) != 1 or not C11.same(val, pt[k][0]) or not C11.same(
        sval, pt[k][0]):
      raise O.Mismatch('%s of %s: value at %s is %s, the metric is %s' % (
          label, e.name, k, val, pt[k]), case)
    if s is None or val is None or math.isinf(val) or math.isinf(s):
      if s is None and (v[lo] is not None or v[up] is not None):
        raise O.Mismatch('%s of %s: interval without a standard error at %s' %
                         (label, e.name, k), case)
      continue
    n = n_of.get(k) if label == 'Jackknife' else 7
    q = stats.t.ppf((1 + conf) / 2, n - 1) if n else None
    ok = q is not None and C11.same(v[lo], val - q * s, 1e-6) and C11.same(
        v[up], val + q * s, 1e-6)
    strict = label == 'Bootstrap' and not e.extra and not e.filters
    if not ok and label != 'Jackknife' and not strict:
      # replicates without a value do not count
      ok = any(C11.same(v[lo], val - q * s, 1e-6) and
               C11.same(v[up], val + q * s, 1e-6)
               for q in (stats.t.ppf((1 + conf) / 2, m - 1)
                         for m in range(2, 7)))
    if not ok:
      raise O.Mismatch('%s of %s: interval at %s is [%s, %s], value %s, '
                       'standard error %s, n %s' % (
                           label, e.name, k, v[lo], v[up], val, s, n), case)
  # the values behind a comparison belong to the same slice and condition
  base = getattr(r_ci, 'meterstick_change_base', None)
  m = e.build(ms)
  if isinstance(m, (ms.PercentChange, ms.AbsoluteChange)):
    want = {}
    child = m.children[0]
    if isinstance(m, (ms.PrePostChange, ms.CUPED)):
      child = child[0]
    ref = child.compute_on(df, by + m.extra_index)
    for (k, c), v in C11.flat(C11.ordered(ref, by)).items():
      want[(k, m.name_tmpl.format(c))] = v[0]
    got = {}
    if base is not None:
      b = base.reset_index()
      for r in b.to_dict('records'):
        got[(tuple(r[c] for c in by + m.extra_index), r['Metric'])] = r[
            '_base_value']
    if set(got) != set(want):
      raise O.Mismatch('%s of %s: base values for %s, expected %s' % (
          label, e.name, sorted(map(str, got)), sorted(map(str, want))), case)
    for k in want:
      g = None if got[k] != got[k] else float(got[k])
      if not C11.same(g, want[k]):
        raise O.Mismatch('%s of %s: base value at %s is %s, expected %s' % (
            label, e.name, k, got[k], want[k]), case)
  # the same numbers in long format, in the same order of columns
  long = go(True, confidence=conf)
  lv = {}
  for r in long.reset_index().to_dict('records'):
    idx = tuple(r[c] for c in by + [n for n in long.index.names[1:]
                                    if n not in by])
    lv[(idx, r['Metric'])] = {c: r[c] for c in long.columns}
  for k, v in ci.items():
    for c, x in v.items():
      y = lv.get(k, {}).get(c)
      y = None if y is None or y != y else float(y)
      if not C11.same(x, y):
        raise O.Mismatch('%s of %s: %s at %s is %s in wide, %s in long format'
                         % (label, e.name, c, k, x, y), case)
  return (e.name, label, len(by))


NAMES = ['sum', 'mean', 'ratio', 'max', 'variance', 'list_mix', 'list_where',
         'comp_mix', 'dist', 'dist_list', 'pct', 'abs', 'abs_list', 'pct_base',
         'pct_multi', 'ops_list', 'mh', 'prepost', 'cuped', 'median', 'hhi']
for n in NAMES:
  e = C.CAT[n]
  for m in METHODS:
    slow = n in ('prepost', 'cuped')
    O.Suite('C21.%s.%s' % (m, n), P, FNS + e.fns,
            lambda ms, rng, i, e=e, m=m: run(ms, rng, i, e, m),
            4 if slow else 12, 40 if slow else 120,
            what='intervals of %s of %s' % (m, n))


# ------------------------------------------------------- for all tables
def half(rows, f, conf):
  """Half width: standard error times the t quantile with n - 1 degrees."""
  d = rows.deletions('u')
  n = d.sum(lambda s: S.notnull(f(s), 1))
  return C11.se_of(rows, f) * S.fn('fn_t_ppf', (1 + conf) / 2, n - 1)


def ci(label, conf, value, width):
  """Columns of an interval from fn(g) -> value and half width."""
  return [((label, 'Value'), value),
          ((label, 'Jackknife CI-lower'), lambda g: value(g) - width(g)),
          ((label, 'Jackknife CI-upper'), lambda g: value(g) + width(g))]


def define(id, build, label, f, kw=None, splits=('all', 'g', 'gh'),
           may_raise=None):
  for s in splits:
    by = C11.BY[s]
    for conf in (.9, .5):
      O.Obligation(
          'C21.ci.%s.%s.%s' % (id, s, str(conf)[2:]), P, FNS, C11.NUMS,
          lambda ms, df, by=by, conf=conf: ms.Jackknife(
              'u', build(ms), conf, **(kw or {})).compute_on(df, by),
          lambda rows, by=by, conf=conf: S.frame(rows, by, ci(
              label, conf, f, lambda g: half(g, f, conf)),
                                                 colnames=['Metric', None]),
          gen=C11.gen_units(by), n=2, may_raise=may_raise)


def define_op(id, build, label, f, by_s=('all', 'g')):
  for s in by_s:
    by = C11.BY[s]
    for conf in (.9,):
      def spec(rows, by=by, conf=conf):
        sl = C11.whole(rows, by)
        return S.frame(rows, by + ['c'], ci(
            label, conf, lambda g: f(sl(g), g.keys['c']),
            lambda g: half(sl(g), lambda s: f(s, g.keys['c']), conf)),
                       present=lambda g: g.exists() & ~S.SymBool(
                           S.sympd.lift(g.keys['c'] == 'a').val),
                       colnames=['Metric', None])
      O.Obligation(
          'C21.ci.%s.%s' % (id, s), P, FNS, dict(C11.NUMS, c='key'),
          lambda ms, df, by=by, conf=conf: ms.Jackknife(
              'u', build(ms), conf).compute_on(df, by),
          spec, gen=C11.gen_op(by), n=4, may_raise=C11.no_base(by, 'a'))


define('sum', lambda ms: ms.Sum('x'), 'sum(x)', C11.SUM)
define('mean', lambda ms: ms.Mean('x'), 'mean(x)', C11.MEAN)
define('ratio', lambda ms: ms.Ratio('x', 'w'), 'sum(x) / sum(w)',
       lambda g: g.sum('x') / g.sum('w'))
define('max', lambda ms: ms.Max('x'), 'max(x)', lambda g: g.max('x'),
       splits=('all',), may_raise=C11.few_units)
define('sum_slow', lambda ms: ms.Sum('x'), 'sum(x)', C11.SUM, C11.OFF,
       splits=('all',), may_raise=C11.few_units)
define_op('abs_sum', lambda ms: ms.AbsoluteChange('c', 'a', ms.Sum('x')),
          'sum(x) Absolute Change', C11.against(C11.DIFF, C11.SUM))
define_op('pct_mean', lambda ms: ms.PercentChange('c', 'a', ms.Mean('x')),
          'mean(x) Percent Change', C11.against(C11.PCT, C11.MEAN))


def define_base(id, build, label, f):
  """The values display() shows changes against."""
  for s in ('all', 'g'):
    by = C11.BY[s]
    O.Obligation(
        'C21.base.%s.%s' % (id, s), P, FNS, dict(C11.NUMS, c='key'),
        lambda ms, df, by=by: ms.Jackknife(
            'u', build(ms), .9).compute_on(df, by).meterstick_change_base,
        lambda rows, by=by: S.stack(
            [([label], S.frame(rows, by + ['c'], [('_base_value', f)]))],
            ['Metric'] + by + ['c'], ['_base_value']),
        gen=C11.gen_op(by), n=4, may_raise=C11.no_base(by, 'a'))


define_base('abs', lambda ms: ms.AbsoluteChange('c', 'a', ms.Sum('x')),
            'sum(x) Absolute Change', C11.SUM)
define_base('pct', lambda ms: ms.PercentChange('c', 'a', ms.Mean('x')),
            'mean(x) Percent Change', C11.MEAN)


# ------------------------------------------- bootstrap, for all tables and draws
def interval(m, draw, n, by, conf, prefix):
  """Value -/+ t quantile x standard deviation of the drawn replicates."""

  def spec2(ms, df):
    import pandas as pd
    draws.check_count(n)
    res = m(ms).compute_on(df, by, melted=True).copy()
    reps = pd.concat([m(ms).compute_on(draw(df, i), by, melted=True)
                      for i in range(n)], axis=1)
    dof = reps.count(axis=1) - 1
    half = reps.std(axis=1) * ms.operations.stats.t.ppf((1 + conf) / 2, dof)
    value = res['Value']
    res[prefix + ' CI-lower'] = value - half
    res[prefix + ' CI-upper'] = value + half
    return res

  return spec2


def define_boot(name, m, by, unit, cls, conf, n=3):

  def impl(ms, df):
    for attempt in range(20):
      draws.reset(df, attempt)
      try:
        return getattr(ms, cls)(unit, m(ms), n, conf, **(
            {'enable_optimization': False} if unit else {})).compute_on(
                df, by or None, melted=True)
      except Exception:  # pylint: disable=broad-except
        if not draws.empty():
          raise

  def draw(df, i):
    if cls == 'PoissonBootstrap':
      return draws.weighted(df, i)
    return draws.units(df, i, unit, by) if unit else draws.rows(df, i, by)

  O.Obligation('C21.boot.%s.%s%s.%s.%s' % (
      name, cls[0].lower(), unit or '', ''.join(by) or 'all', str(conf)[2:]),
               P, FNS, {'x': 'num', 'w': 'pos', 'g': 'key', 'u': 'key'}, impl,
               spec2=interval(m, draw, n, by or None, conf,
                              C12.METHODS_PREFIX[cls]),
               needs=C12.spread(unit, by, n), n=4)


for _n in ('abstract', 'missing', 'sum', 'ratio', 'list'):
  for _by in ([], ['g']):
    for _unit, _cls in ((None, 'Bootstrap'), ('u', 'Bootstrap'),
                        (None, 'PoissonBootstrap')):
      define_boot(_n, C12.METRICS[_n], _by, _unit, _cls,
                  .9 if _n != 'ratio' else .5)


# ------------------------------------------------- rows of differing dof
SPARSE = {
    'sum(x)': lambda ms: ms.Sum('x'),
    'mean(x)': lambda ms: ms.Mean('x'),
    'mean(z)': lambda ms: ms.Mean('z'),
    'count(z)': lambda ms: ms.Count('z'),
    'var(z)': lambda ms: ms.Variance('z'),
    'var(x)': lambda ms: ms.Variance('x'),
    'sd(z)': lambda ms: ms.StandardDeviation('z'),
    'cv(z)': lambda ms: ms.CV('z'),
}


def left(ms, build, df):
  """The number of units whose deletion leaves a value."""
  n = 0
  for u in sorted(df.u.unique()):
    r = build(ms).compute_on(df[df.u != u])
    n += bool(len(r)) and not math.isnan(float(r.iloc[0, 0]))
  return n


@O.suite('C21.degrees_of_freedom', P, FNS + [
    'operations.MetricWithCI.compute_on_sql_sql_mode',
    'operations.Jackknife.get_sql_and_with_clause'], 16, 120,
         what='the half width of each row is the t quantile of its own number '
         'of replicates times its standard error, on DataFrames and on SQL')
def degrees_of_freedom(ms, rng, i):
  from props import C13
  by = [[], ['g']][i % 2]
  n = rng.randint(8, 14)
  few = {g: rng.sample(['u1', 'u2', 'u3', 'u4', 'u5'], rng.randint(1, 3))
         for g in 'ab'}
  rows = []
  for j in range(n):
    g, u = rng.choice('ab'), 'u%d' % rng.randint(1, 5)
    rows.append({'x': rng.randint(1, 90) / 4., 'g': g, 'u': u, 'z': (
        rng.randint(1, 90) / 8. if u in few[g] else None)})
  df = O.to_df({'x': 'num', 'z': 'num', 'g': 'key', 'u': 'key'}, rows)
  names = rng.sample(sorted(SPARSE), rng.randint(1, 4))
  conf = rng.choice([.8, .9, .95])

  def build(*a):
    ch = [SPARSE[k](ms) for k in names]
    return ms.Jackknife('u', ms.MetricList(ch) if len(ch) > 1 else ch[0], *a)

  case = {'metrics': names, 'by': by, 'confidence': conf, 'rows': rows}
  slices = sorted(set(df.g)) if by else [None]
  want = {(k, g): left(ms, SPARSE[k], df[df.g == g] if by else df)
          for k in names for g in slices}
  seen = 0
  for mode in ('frame', 'sql', 'mixed'):
    def compute(m):
      if mode == 'frame':
        return m.compute_on(df, by or None, melted=True)
      return m.compute_on_sql('T', by or None, execute=C13.Exec(df), mode=(
          None if mode == 'sql' else mode), melted=True)
    se = O.run_impl(lambda: compute(build()))
    ci = O.run_impl(lambda: compute(build(conf)))
    if not hasattr(se, 'columns'):
      continue
    if not hasattr(ci, 'columns'):
      raise O.Mismatch('%s: with confidence raises %s: %s' % (
          mode, ci.kind, str(ci.exc)[:200]), case)
    for key, r in ci.iterrows():
      k, g = key if by else (key, None)
      s = se.loc[key].iloc[1]
      half = (r.iloc[2] - r.iloc[1]) / 2
      m = want[k, g]
      if not s > 1e-9 or m < 2:
        continue
      expect = s * stats.t.ppf((1 + conf) / 2, m - 1)
      if not abs(half - expect) <= 1e-6 * (1 + abs(expect)):
        raise O.Mismatch('%s: half width of %s in %s is %s, not %s (standard '
                         'error %s, %d replicates)' % (
                             mode, k, g, half, expect, s, m), case)
      seen += 1
  return (len(names), bool(by), seen > 0)


# ------------------------------------------------- the same on SQL
sqlalso.also(P, sqlalso.entries('jackknife_ci', 'jackknife_pct_ci'),
             sqlalso.trees('jk_pct_ci', 'jk_noopt', 'jk_of_list', 'jk_split_pct',
                           'jk_abs_slow'))
