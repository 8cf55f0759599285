"""C15: shape, names and the long format of results."""
import contextlib
import io

import numpy as np
import pandas as pd

from engine import compare
from engine import obligation as O
from props import C05
from props import catalog as C
from props import trees as T

P = 'C15'
LEVEL = 'proof'
TECHNIQUE = ('contract-based deductive verification: for all tables the long '
             'format has exactly the values of the wide one under metric '
             'names and converts back to it, also for metrics of unknown '
             'value, on symbolically executed real code, discharged by z3; '
             'bounded suites for layout and names of random metric trees and '
             'for conversions of random frames')
NOTE = ('Proved for the metrics of the catalog and lists of abstract metrics; '
        'documented names and layouts of arbitrary trees, resampling and '
        'models are compared on generated cases.')
FNS = ['utils.melt', 'utils.unmelt', 'utils.apply_name_tmpl',
       'utils.remove_empty_level', 'metrics.Metric.manipulate',
       'metrics.MetricList.to_dataframe', 'metrics.Metric.to_dataframe',
       'metrics.CompositeMetric.compute_on_children']


# ------------------------------------------------ documented names, layouts
def leaf_name(t):
  _, cls, args, kw = t
  if kw.get('name'):
    return kw['name']
  v = args[0]
  w = '%s-weighted ' % kw['weight'] if kw.get('weight') else ''
  if cls == 'Count':
    return 'count(distinct %s)' % v if kw.get('distinct') else 'count(%s)' % v
  if cls == 'Dot':
    return ('mean(%s * %s)' if kw.get('normalize') else 'sum(%s * %s)') % args
  if cls == 'Ratio':
    return 'sum(%s) / sum(%s)' % args
  if cls == 'Nth':
    v, n, by = args
    asc = kw.get('ascending', True)
    if n < 0:
      n, asc = -n - 1, not asc
    return '%s(%s) sort by %s %s' % (['1st', '2nd', '3rd', '4th'][n], v, by,
                                     'asc' if asc else 'desc')
  if cls == 'Quantile':
    return w + 'quantile(%s, %s)' % args
  if cls in ('Cov', 'Correlation'):
    return w + '%s(%s, %s)' % (({'Cov': 'cov', 'Correlation': 'corr'}[cls],) +
                               tuple(args))
  return w + '%s(%s)' % ({'StandardDeviation': 'sd', 'Variance': 'var'}.get(
      cls, cls.lower()), v)


TMPL = {'Distribution': 'Distribution of {}',
        'CumulativeDistribution': 'Cumulative Distribution of {}',
        'PercentChange': '{} Percent Change',
        'AbsoluteChange': '{} Absolute Change', 'MH': '{} MH Ratio'}


def own_name(t):
  """The name of the metric itself."""
  if isinstance(t, (int, float)):
    return str(t)
  if t[0] == 'leaf':
    return leaf_name(t)
  if t[0] == 'op':
    if t[1] == '**':
      return ('sqrt(%s)' % own_name(t[2])) if t[3] == .5 else '%s ^ %s' % (
          own_name(t[2]), own_name(t[3]))
    return '%s %s %s' % (own_name(t[2]), t[1], own_name(t[3]))
  if t[0] == 'list':
    if len(t[1]) == 1:
      return own_name(t[1][0])
    return 'MetricList(%s)' % ', '.join(map(own_name, t[1]))
  return TMPL[t[1]].format(own_name(t[3]))


def names(t):
  """The columns of its result."""
  if t[0] == 'list':
    return [n for z in t[1] for n in names(z)]
  if t[0] == 'fn':
    return [TMPL[t[1]].format(n) for n in names(t[3])]
  if t[0] == 'op':
    a, b = ([own_name(z)] if isinstance(z, (int, float)) else names(z)
            for z in t[2:])
    if len(a) == len(b) == 1:
      return [own_name(t)]
    f = lambda x, y: own_name(('op', t[1], ('leaf', '', (), {'name': x}),
                               ('leaf', '', (), {'name': y})))
    if len(a) == len(b):
      return [f(x, y) for x, y in zip(a, b)]
    # next to several columns a metric goes by its own name
    if len(b) == 1:
      return [f(x, own_name(t[3])) for x in a]
    return [f(own_name(t[2]), y) for y in b]
  return [own_name(t)]


def extra(t):
  """Index columns it adds to the split columns."""
  if isinstance(t, (int, float)) or t[0] == 'leaf':
    return []
  if t[0] == 'fn':
    return [t[2][0]] + extra(t[3])
  for z in (t[2:] if t[0] == 'op' else t[1]):
    e = extra(z)
    if e:
      return e
  return []


def rows_of(df):
  """[(index tuple, [values])]."""
  out = []
  for k, (_, r) in zip(df.index, df.iterrows()):
    out.append((k if isinstance(k, tuple) else (k,), list(r)))
  return out


def eq(a, b):
  if isinstance(a, str) or isinstance(b, str):
    return a == b
  return (pd.isnull(a) and pd.isnull(b)) or a == b


def same_rows(what, got, want, case):
  if [k for k, _ in got] != [k for k, _ in want]:
    raise O.Mismatch('%s: rows %s, expected %s' % (
        what, [k for k, _ in got], [k for k, _ in want]), case)
  for (k, x), (_, y) in zip(got, want):
    if len(x) != len(y) or not all(eq(p, q) for p, q in zip(x, y)):
      raise O.Mismatch('%s at %s: %s, expected %s' % (what, k, x, y), case)


def layout(df, index, columns, what, case):
  if list(df.index.names) != list(index):
    raise O.Mismatch('%s: index levels %s, documented %s' % (
        what, list(df.index.names), list(index)), case)
  if list(df.columns) != list(columns):
    raise O.Mismatch('%s: columns %s, documented %s' % (
        what, list(df.columns), list(columns)), case)


def long_rows(wide, bare, levels=None):
  """Rows of the long format of a wide result, from its cells."""
  out = []
  heads = list(wide.columns.get_level_values(0).unique()) if (
      wide.columns.nlevels > 1) else list(wide.columns)
  for h in heads:
    for k, v in rows_of(wide[[h]]):
      out.append(((h,) + (() if bare else k), v))
  return out


def check_result(ms, build, df, by, index, columns, case, sub=None):
  """Wide and long results against the documented layout and each other."""
  out = io.StringIO()
  with contextlib.redirect_stdout(out):
    wide = O.run_impl(lambda: build().compute_on(df, by))
  if isinstance(wide, compare.Raised) or 'failed for reason' in out.getvalue():
    return None  # a member outside its domain
  bare = not index
  if sub is None:
    layout(wide, index or [None], columns, 'wide format', case)
  else:
    if list(wide.index.names) != (index or [None]) or list(wide.columns) != [
        (c, s) for c in columns for s in sub]:
      raise O.Mismatch('wide format: index %s and columns %s, documented %s '
                       'and %s x %s' % (list(wide.index.names), list(
                           wide.columns), index, columns, sub), case)
  if bare and len(wide) != 1:
    raise O.Mismatch('%d rows without split' % len(wide), case)
  if not wide.index.is_unique:
    raise O.Mismatch('rows repeat: %s' % list(wide.index), case)
  if len(set(columns)) < len(columns) or wide.empty:
    return ('dup',)  # ambiguous names or no rows have no long format
  melted = C05.quiet(build().compute_on, df, by, melted=True)
  if isinstance(melted, compare.Raised):
    raise O.Mismatch('long format: %s' % melted, case)
  layout(melted, ['Metric'] + index, sub or ['Value'], 'long format', case)
  want = long_rows(wide, bare)
  same_rows('long format', rows_of(melted), want, case)
  kw, km = wide.copy(), melted.copy()
  m2, w2 = ms.utils.melt(wide), ms.utils.unmelt(melted)
  layout(m2, ['Metric'] + index, sub or ['Value'], 'melt', case)
  same_rows('melt', rows_of(m2), want, case)
  if list(w2.columns) != list(wide.columns) or list(
      w2.index.names) != list(wide.index.names):
    raise O.Mismatch('unmelt: index %s and columns %s, wide format %s and %s'
                     % (list(w2.index.names), list(w2.columns),
                        list(wide.index.names), list(wide.columns)), case)
  if sorted(map(repr, w2.index)) != sorted(map(repr, wide.index)):
    raise O.Mismatch('unmelt: rows %s, wide format %s' % (
        list(w2.index), list(wide.index)), case)
  if not bare:
    w2 = w2.loc[wide.index]
  same_rows('unmelt', rows_of(w2), rows_of(wide), case)
  if not (kw.equals(wide) and km.equals(melted)):
    raise O.Mismatch('converting changed its input', case)
  res = C05.quiet(build().compute_on, df, by, return_dataframe=False)
  if sub is None and len(columns) == 1 and not isinstance(
      res, (pd.DataFrame, list)):
    got = [((0,), [res])] if not isinstance(res, pd.Series) else [
        (k if isinstance(k, tuple) else (k,), [v]) for k, v in res.items()]
    if bare and isinstance(res, pd.Series):
      got = [((0,), v) for _, v in got]
    same_rows('return_dataframe=False', got, [
        ((0,) if bare else k, v) for k, v in rows_of(wide)], case)
  return (len(index), len(columns))


BYS = [[], ['g'], ['s', 'g'], ['g', 's'], ['u', 's', 'g']]


def tree_run(ms, rng, i, kind):
  t = T.tree(rng, kind)
  by = rng.choice(BYS)
  if 'MH' in repr(t):
    by = [b for b in by if b != 's']
  rows = T.table(rng)
  df = O.to_df(T.SCHEMA, rows)
  case = {'tree': t, 'by': by, 'rows': rows}
  if T.empties(t, df):
    return None
  return check_result(ms, lambda: T.build(ms, t), df, by, by + extra(t),
                      names(t), case)


for _k in ('', 'h', 'c'):
  O.Suite('C15.tree.%s' % (_k or 'flat'), P, FNS,
          lambda ms, rng, i, k=_k: tree_run(ms, rng, i, k), 130, 2500,
          what='documented layout and names; long format')


@O.suite('C15.two_part', P, FNS, 120, 2400)
def two_part(ms, rng, i):
  """Arithmetic between lists, and lists of lists."""
  n = rng.randint(1, 3)
  mk = lambda k: ('list', [T.leaf(rng) for _ in range(k)], {})
  a = mk(n)
  b = rng.choice([mk(n), T.leaf(rng), 2, mk(1)])
  t = ('op', rng.choice('+-*/'), a, b) if rng.random() < .5 else (
      'op', rng.choice('+-*/'), b, a)
  if rng.random() < .3:
    t = ('list', [t, T.scalar(rng, 1)], {})
  if rng.random() < .4:
    t = ('fn', rng.choice(['Distribution', 'PercentChange']), None, t, {})
    t = t[:2] + ((('h',) if t[1] == 'Distribution' else ('c', 'a')),) + t[3:]
  by = rng.choice(BYS)
  rows = T.table(rng)
  df = O.to_df(T.SCHEMA, rows)
  if T.empties(t, df):
    return None
  return check_result(ms, lambda: T.build(ms, t), df, by, by + extra(t),
                      names(t), {'tree': t, 'by': by, 'rows': rows})


NAMED = {
    'list rename': (lambda ms, a, b: ms.MetricList(
        [a, b], rename_columns=['p', 'q']), ['p', 'q'], []),
    'list set': (lambda ms, a, b: (lambda m: (m.rename_columns(['p', 'q']), m)[
        1])(ms.MetricList([a, b])), ['p', 'q'], []),
    'list tmpl': (lambda ms, a, b: ms.MetricList([a, b], name_tmpl='A {}'),
                  ['A {0}', 'A {1}'], []),
    'op rename': (lambda ms, a, b: (a / b).rename_columns(['r']), ['r'], []),
    'op set': (lambda ms, a, b: (a / b).set_name('r'), ['r'], []),
    'op rename list': (lambda ms, a, b: (ms.MetricList([a, b]) / 2)
                       .rename_columns(['p', 'q']), ['p', 'q'], []),
    'op rename in list': (lambda ms, a, b: ms.MetricList([
        (a - b).rename_columns(['r']), b]), ['r', '{1}'], []),
    'op rename in pct': (lambda ms, a, b: ms.PercentChange(
        'c', 'a', (a - b).rename_columns(['r'])), ['r Percent Change'], ['c']),
    'op set in list': (lambda ms, a, b: ms.MetricList([
        a, (a - b).set_name('r')]), ['{0}', 'r'], []),
    'pct tmpl': (lambda ms, a, b: ms.PercentChange(
        'c', 'a', ms.MetricList([a, b]), name_tmpl='d {}'),
                 ['d {0}', 'd {1}'], ['c']),
    'abs tmpl': (lambda ms, a, b: ms.AbsoluteChange(
        'c', 'a', a, name_tmpl='{} (abs)'), ['{0} (abs)'], ['c']),
    'dist tmpl': (lambda ms, a, b: ms.Distribution('h', b, name_tmpl='{}%'),
                  ['{1}%'], ['h']),
    'dist many': (lambda ms, a, b: ms.Distribution(['h', 'c'], b),
                  ['Distribution of {1}'], ['h', 'c']),
    'cum tmpl': (lambda ms, a, b: ms.CumulativeDistribution(
        'h', b, name_tmpl='{}%'), ['{1}%'], ['h']),
    'pct many': (lambda ms, a, b: ms.PercentChange(
        ['c', 'h'], ('a', 'b'), a, include_base=True),
                 ['{0} Percent Change'], ['c', 'h']),
    'neg': (lambda ms, a, b: -a, ['-{0}'], []),
    'rpow': (lambda ms, a, b: 2**a, ['2 ^ {0}'], []),
    'sqrt': (lambda ms, a, b: b**.5, ['sqrt({1})'], []),
    'radd': (lambda ms, a, b: 2 + a, ['2 + {0}'], []),
    'rdiv': (lambda ms, a, b: 1.5 / b, ['1.5 / {1}'], []),
    'rsub': (lambda ms, a, b: 1 - b, ['1 - {1}'], []),
    'hhi': (lambda ms, a, b: ms.HHI('h', b), ['HHI of {1}'], []),
    'hhi2': (lambda ms, a, b: ms.HHI('h', ms.MetricList([b, a])), [
        'HHI of {1}', 'HHI of {0}'], []),
    'entropy': (lambda ms, a, b: ms.Entropy('h', b), ['Entropy of {1}'], []),
    'topk': (lambda ms, a, b: ms.TopK('h', 2, b), ["Top-2's share of {1}"], []),
    'nxx': (lambda ms, a, b: ms.Nxx('h', .5, b), ['N(50) of {1}'], []),
    'quantiles': (lambda ms, a, b: ms.Quantile('y', [.2, .5]),
                  ['quantile(y, 0.2)', 'quantile(y, 0.5)'], []),
    'wquantiles': (lambda ms, a, b: ms.Quantile('y', [.2, .5], weight='w'), [
        'w-weighted quantile(y, 0.2)', 'w-weighted quantile(y, 0.5)'], []),
    'nested ops': (lambda ms, a, b: ms.Distribution('h', ms.PercentChange(
        'c', 'a', b)), ['Distribution of {1} Percent Change'], ['h', 'c']),
    'pct dist': (lambda ms, a, b: ms.PercentChange('c', 'a', ms.Distribution(
        'h', b)), ['Distribution of {1} Percent Change'], ['c', 'h']),
    'prepost': (lambda ms, a, b: ms.PrePostChange(
        'c', 'a', ms.Sum('y'), [ms.Sum('w')], 'u'),
                ['sum(y) PrePost Percent Change'], ['c']),
    'cuped': (lambda ms, a, b: ms.CUPED(
        'c', 'a', ms.Sum('y'), [ms.Sum('w')], 'u'), ['sum(y) CUPED Change'],
              ['c']),
    'lm': (lambda ms, a, b: ms.models.LinearRegression(
        ms.Sum('y'), [ms.Sum('w'), ms.Count('w')], 'u'),
           ['OLS(sum(y) ~ sum(w) + count(w)) Coefficient: ' + z for z in (
               'intercept', 'sum(w)', 'count(w)')], []),
    'lm no intercept': (lambda ms, a, b: ms.models.LinearRegression(
        ms.Sum('y'), [ms.Sum('w')], 'u', fit_intercept=False),
                        ['OLS(sum(y) ~ sum(w)) Coefficient: sum(w)'], []),
    'ridge': (lambda ms, a, b: ms.models.Ridge(
        ms.Sum('y'), [ms.Sum('w')], 'u', alpha=2),
              ['Ridge(sum(y) ~ sum(w)) Coefficient: ' + z for z in (
                  'intercept', 'sum(w)')], []),
}


@O.suite('C15.named', P, FNS + ['operations.Operation.manipulate'],
         4 * len(NAMED), 60 * len(NAMED))
def named(ms, rng, i):
  """Names given by the user, templates and other classes."""
  k = sorted(NAMED)[i % len(NAMED)]
  make, cols, ex = NAMED[k]
  a = ('leaf', 'Sum', ('x',), T.where(rng))
  b = ('leaf', rng.choice(['Sum', 'Mean']), ('w',), rng.choice(
      [{}, {'name': 'n 1'}]))
  by = rng.choice(BYS[:4])
  if k in ('prepost', 'cuped', 'lm', 'ridge', 'lm no intercept'):
    by = rng.choice(BYS[:2])
    rows = T.table(rng, 14, 20)
  else:
    rows = T.table(rng)
  df = O.to_df(T.SCHEMA, rows)
  if T.empties(a, df):
    return None
  return check_result(
      ms, lambda: make(ms, T.build(ms, a), T.build(ms, b)), df, by, by + ex,
      [c.format(own_name(a), own_name(b)) for c in cols],
      {'metric': k, 'a': a, 'b': b, 'by': by, 'rows': rows})


@O.suite('C15.resampled', P, FNS + ['operations.MetricWithCI.manipulate'], 120,
         2400)
def resampled(ms, rng, i):
  """Jackknife and Bootstrap: value and spread next to each other."""
  cls = rng.choice(['Jackknife', 'Bootstrap', 'PoissonBootstrap'])
  conf = rng.choice([None, .9])
  kind = rng.choice(['', '', 'c', 'h'])
  if kind == 'c':
    t = ('fn', 'PercentChange', ('c', 'a'), rng.choice([
        ('leaf', 'Sum', ('w',), {}), ('list', [
            ('leaf', 'Sum', ('w',), {}), ('leaf', 'Mean', ('y',), {})], {})]),
         {})
  elif kind == 'h':
    t = ('fn', 'Distribution', ('h',), ('leaf', 'Sum', ('w',), {}), {})
  else:
    t = T.cols(rng, 1)
  tmpl = {'Jackknife': 'Jackknife', 'Bootstrap': 'Bootstrap',
          'PoissonBootstrap': 'Poisson Bootstrap'}[cls]
  sub = ['Value'] + ([tmpl + ' SE'] if not conf else [
      tmpl + ' CI-lower', tmpl + ' CI-upper'])
  by = rng.choice(BYS[:3])
  rows = T.table(rng, 10, 20, nulls=False)
  df = O.to_df(T.SCHEMA, rows)
  if T.empties(t, df):
    return None

  def build():
    np.random.seed(5)
    m = T.build(ms, t)
    return ms.Jackknife('u', m, conf) if cls == 'Jackknife' else getattr(
        ms, cls)('u', m, 4, conf)
  return check_result(ms, build, df, by, by + extra(t), names(t), {
      'class': cls, 'tree': t, 'confidence': conf, 'by': by, 'rows': rows},
                      sub)


# ------------------------------------------------ conversions of any frame
LABELS = ['a', 'b', 'sum(x)', 'c d', 'é', 'Value', '1', '{x}', 'm,n', 'B']


def conv_frame(rng):
  """A frame as metrics return them."""
  n = rng.randint(1, 6)
  depth = rng.choice([0, 1, 1, 2, 2, 3])
  pools = [rng.choice([['p', 'q', 'r'], [3, 1, 2], [0, 1], [True, False],
                       ['', 'z'], [1.5, 0.], [pd.Timestamp('2020-01-01'),
                                              pd.Timestamp('2019-05-05')]])
           for _ in range(depth)]
  lev = [rng.choice(['g', 's', 'c d', 'Metric 2']) + str(k)
         for k in range(depth)]
  keys = []
  for _ in range(n):
    k = tuple(rng.choice(p) for p in pools)
    if k not in keys:
      keys.append(k)
  if not depth:
    keys = [()]
  names = rng.sample(LABELS, rng.randint(1, 4))
  sub = None
  if rng.random() < .35:
    sub = rng.choice([['Value', 'X SE'], ['Value', 'X CI-lower',
                                          'X CI-upper'], ['X SE']])
  width = len(names) * (len(sub) if sub else 1)
  vals = [[rng.choice([1., 2.5, -3., 0., np.nan, 1e9]) for _ in range(width)]
          for _ in keys]
  cols = names if sub is None else pd.MultiIndex.from_product(
      [names, sub], names=['Metric', None])
  if depth == 0:
    ix = [0]
  elif depth == 1:
    ix = pd.Index([k[0] for k in keys], name=lev[0])
  else:
    ix = pd.MultiIndex.from_tuples(keys, names=lev)
  return pd.DataFrame(vals, index=ix, columns=cols), names, sub, lev


@O.suite('C15.convert', P, FNS, 300, 8000)
def convert(ms, rng, i):
  """melt and unmelt of frames of any layout."""
  wide, names, sub, lev = conv_frame(rng)
  case = {'frame': wide.to_dict('split'), 'levels': lev}
  bare = not lev
  kept = wide.copy()
  long = O.run_impl(lambda: ms.utils.melt(wide))
  if isinstance(long, compare.Raised):
    raise O.Mismatch('melt: %s' % long, case)
  if not kept.equals(wide) or list(kept.columns) != list(wide.columns):
    raise O.Mismatch('melt changed its input', case)
  layout(long, ['Metric'] + lev, sub or ['Value'], 'melt', case)
  want = []
  for n in names:
    for k, v in rows_of(wide):
      at = names.index(n) * (len(sub) if sub else 1)
      want.append(((n,) + (() if bare else k), v[at:at + (len(sub) if sub
                                                           else 1)]))
  same_rows('melt', rows_of(long), want, case)
  # any order of the rows of the long format
  shuf = rng.random() < .5
  src = long
  if shuf:
    order = rng.sample(range(len(long)), len(long))
    src = long.iloc[order]
  kept = src.copy()
  back = O.run_impl(lambda: ms.utils.unmelt(src))
  if isinstance(back, compare.Raised):
    raise O.Mismatch('unmelt: %s' % back, case)
  if not kept.equals(src):
    raise O.Mismatch('unmelt changed its input', case)
  if sorted(map(repr, back.columns)) != sorted(map(repr, wide.columns)):
    raise O.Mismatch('unmelt: columns %s, were %s' % (list(back.columns), list(
        wide.columns)), case)
  if list(back.index.names) != list(wide.index.names):
    raise O.Mismatch('unmelt: index %s, was %s' % (
        list(back.index.names), list(wide.index.names)), case)
  if not shuf and list(back.columns) != list(wide.columns):
    raise O.Mismatch('unmelt: order of columns %s, was %s' % (list(
        back.columns), list(wide.columns)), case)
  got = dict(rows_of(back[list(wide.columns)]))
  for k, v in rows_of(wide):
    k = k if not bare else next(iter(got))
    if k not in got or not all(eq(p, q) for p, q in zip(got[k], v)):
      raise O.Mismatch('unmelt at %s: %s, was %s' % (k, got.get(k), v), case)
  if len(got) != len(wide):
    raise O.Mismatch('unmelt has rows %s' % list(got), case)
  again = ms.utils.melt(back[list(wide.columns)])
  a, b = dict(rows_of(again)), dict(rows_of(long))
  if set(a) != set(b) or any(not all(eq(p, q) for p, q in zip(a[k], b[k]))
                             for k in a):
    raise O.Mismatch('melting back has other values', case)
  return (len(lev), sub is None, shuf)


# ------------------------------------------------------------- obligations
def long(e, by):
  def f(ms, df):
    res = e(ms).compute_on(df, by, melted=True)
    if not (e.index or by):
      return [res]
    return [res] + [res.loc[n] for n in e(ms).compute_on(df, by).columns]
  return f


class Spec(object):
  """A metric and whether it adds index columns."""

  def __init__(self, build, index):
    self.build, self.index = build, index

  def __call__(self, ms):
    return self.build(ms)


def by_definition(e, by):
  """The long format, put together from the columns of the wide one."""
  def f(ms, df):
    w = e(ms).compute_on(df, by)
    pd_ = ms.utils.pd
    if not (e.index or by):
      res = w.T
      res.index.name = 'Metric'
      res.columns = ['Value']
      return [res]
    one = []
    for n in list(w.columns):
      c = w[[n]]
      c.columns = ['Value']
      one.append(c)
    return [pd_.concat(one, keys=list(w.columns), names=['Metric'])] + [
        c.copy() for c in one]
  return f


def back(e, by):
  def f(ms, df):
    res = ms.utils.unmelt(e(ms).compute_on(df, by, melted=True))
    res.columns = list(res.columns)
    return res
  return f


def wide(e, by):
  def f(ms, df):
    w = e(ms).compute_on(df, by)
    w.columns = list(w.columns)
    return w
  return f


def ob(name, fns, schema, e, by, **kw):
  k = '%s.%s' % (name, ''.join(by) or 'all')
  O.Obligation('C15.long.' + k, P, FNS + fns, schema, long(e, by),
               spec2=by_definition(e, by), **kw)
  O.Obligation('C15.back.' + k, P, FNS + fns, schema, back(e, by),
               spec2=wide(e, by), **kw)


def some(e, by):
  """The metric has a value at all."""
  out = C05.needs([e], by)
  fs = list(e.filters)
  if e.cond:
    base = {'c': 'a'}
    if e.name == 'pct_multi':
      base['h'] = 'b'
    out.append(lambda rows: rows.where(*fs).where(lambda r: ~_all(
        r, base)).exists())
  if 'order' in e.name:
    out.append(lambda rows: rows.where(*fs).at(h='b').exists())
  if fs:
    out.append(lambda rows: rows.where(*fs).exists())
  return out


def _all(r, base):
  x = None
  for c, v in base.items():
    y = r[c] == v
    x = y if x is None else x & y
  return x


for _e in C.CAT.values():
  if not _e.ded or 'jackknife' in _e.name or _e.unit:
    continue
  for _by in ([], ['g']):
    if _by and ('g' in _e.cols or 'order' in _e.name):
      continue
    _s = {c: C.SCH[c] for c in _e.cols + ([] if 'g' in _e.cols else ['g'])}
    ob(_e.name, _e.fns, _s, Spec(_e.build, bool(_e.extra)), _by,
       needs=some(_e, _by), gen=C05.gen(_e, _e, ['g']), n=4)

ABS = {'x': 'num', 'y': 'num', 'g': 'key', 'h': 'key'}
ABSTRACT = {
    'one': Spec(lambda ms: ms.Abstract('N1', ('x',)), False),
    'two': Spec(lambda ms: ms.MetricList([
        ms.Abstract('N1', ('x',)), ms.Abstract('N2', ('y',))]), False),
    'three': Spec(lambda ms: ms.MetricList([
        ms.Abstract('N2', ('y',)), ms.Abstract('N1', ('x',)),
        ms.Abstract('M3', ('x', 'y'))]), False),
    'arith': Spec(lambda ms: ms.MetricList([
        ms.Abstract('N2', ('y',)), ms.Abstract('N1', ('x',))]) / 2, False),
    'renamed': Spec(lambda ms: ms.MetricList([
        ms.Abstract('N2', ('y',)), ms.Abstract('N1', ('x',))],
                                             rename_columns=['p', 'q']), False),
    'tmpl': Spec(lambda ms: ms.MetricList([
        ms.Abstract('N2', ('y',)), ms.Abstract('N1', ('x',))],
                                          name_tmpl='A {}'), False),
}
for _k, _e in ABSTRACT.items():
  for _by in ([], ['g'], ['g', 'h'], ['h', 'g']):
    ob('abstract_' + _k, [], ABS, _e, _by)
