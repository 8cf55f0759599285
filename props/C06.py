"""C06: metrics treated as equal compute the same values."""
import copy

import numpy as np

from engine import compare
from engine import obligation as O
from props import C05
from props import catalog as C
from props import trees as T

P = 'C06'
LEVEL = 'proof'
TECHNIQUE = ('contract-based deductive verification: for pairs of metrics that '
             'the real code treats as equal (or that share a cached result) '
             'the values are proved equal for all tables on symbolically '
             'executed real code, discharged by z3; bounded suites over the '
             'parameter matrix of all classes and over mutated random trees')
NOTE = ('Which pairs are equal is decided by running the code; their values '
        'are proved equal for the pairs of the matrix within the contracts, '
        'the others (random, regression, order statistics) are compared on '
        'generated tables.')
FNS = ['metrics.Metric.get_fingerprint', 'metrics.Metric.__eq__',
       'metrics.Metric.__hash__', 'metrics.CompositeMetric.get_fingerprint',
       'metrics.Ratio.get_fingerprint', 'metrics.Cov.get_fingerprint',
       'utils.CacheKey.__eq__', 'utils.CacheKey.__hash__']

V = {}    # label -> build(ms)
FLAT = set()


def v(label, build, ded=True):
  assert label not in V, label
  V[label] = build
  if ded:
    FLAT.add(label)


# ----------------------------------------------------- the parameter matrix
for c in ('Sum', 'Max', 'Min'):
  for z in 'xyw':
    v('%s(%s)' % (c, z), lambda ms, c=c, z=z: getattr(ms, c)(z))
for z in 'xw':
  for kw in ({}, {'distinct': True}):
    v('Count(%s,%s)' % (z, kw), lambda ms, z=z, kw=kw: ms.Count(z, **kw))
  for u in (None, 'w', 'y'):
    if u != z:
      v('Mean(%s,%s)' % (z, u), lambda ms, z=z, u=u: ms.Mean(z, u))
for a, b in (('x', 'y'), ('y', 'x'), ('x', 'w'), ('x', 'x')):
  for n in (False, True):
    v('Dot(%s,%s,%s)' % (a, b, n),
      lambda ms, a=a, b=b, n=n: ms.Dot(a, b, n))
  v('Ratio(%s,%s)' % (a, b), lambda ms, a=a, b=b: ms.Ratio(a, b))
  v('Sum(%s)/Sum(%s)' % (a, b), lambda ms, a=a, b=b: ms.Sum(a) / ms.Sum(b))
  if a != b:
    for kw in ({}, {'bias': True}, {'bias': False}, {'ddof': 0}, {'ddof': 1},
               {'ddof': 2}, {'weight': 'w'}, {'weight': 'w', 'bias': True},
               {'fweight': 'f'}, {'fweight': 'w', 'bias': True},
               {'weight': 'w', 'fweight': 'f'}):
      if kw.get('fweight') == 'w' or 'w' in (a, b) and kw.get('weight'):
        continue
      v('Cov(%s,%s,%s)' % (a, b, kw),
        lambda ms, a=a, b=b, kw=kw: ms.Cov(a, b, **kw), 'fweight' not in kw and
        kw.get('ddof') != 2)
    for kw in ({}, {'weight': 'w'}, {'method': 'spearman'},
               {'method': 'kendall'}):
      if 'w' not in (a, b):
        v('Correlation(%s,%s,%s)' % (a, b, kw),
          lambda ms, a=a, b=b, kw=kw: ms.Correlation(a, b, **kw),
          'method' not in kw)
for c in ('Variance', 'StandardDeviation', 'CV'):
  for kw in ({}, {'unbiased': False}, {'weight': 'w'},
             {'unbiased': False, 'weight': 'w'}):
    if c != 'CV' or 'weight' not in kw:
      v('%s(x,%s)' % (c, kw), lambda ms, c=c, kw=kw: getattr(ms, c)('x', **kw))
for q in (0.25, 0.5, (0.25,), (0.25, 0.5), (0.5, 0.25)):
  for kw in ({}, {'weight': 'w'}, {'interpolation': 'lower'},
             {'interpolation': 'higher'}):
    v('Quantile(x,%s,%s)' % (q, kw),
      lambda ms, q=q, kw=kw: ms.Quantile('x', q, **kw), False)
for n in (0, 1, 2, -1, -2):
  for kw in ({}, {'ascending': False}, {'dropna': True}):
    v('Nth(x,%s,%s)' % (n, kw), lambda ms, n=n, kw=kw: ms.Nth(
        'x', n, 'y', **kw), False)
# z has missing values.
for n in (0, 1, -1):
  for kw in ({}, {'dropna': True}, {'ascending': False},
             {'ascending': False, 'dropna': True}):
    v('Nth(z,%s,%s)' % (n, kw), lambda ms, n=n, kw=kw: ms.Nth(
        'z', n, 'y', **kw), False)
for n, f in {
    'Count(z)': lambda ms: ms.Count('z'),
    'Mean(z)': lambda ms: ms.Mean('z'),
    'Mean(z,w)': lambda ms: ms.Mean('z', 'w'),
    'Sum(z)/Count(z)': lambda ms: ms.Sum('z') / ms.Count('z'),
    'Sum(z)/Count(x)': lambda ms: ms.Sum('z') / ms.Count('x'),
    'Dot(z,y)': lambda ms: ms.Dot('z', 'y'),
    'Dot(z,y,True)': lambda ms: ms.Dot('z', 'y', True),
    'Dot(z,y)/Count(z)': lambda ms: ms.Dot('z', 'y') / ms.Count('z'),
    'Dot(z,y)/Count(y)': lambda ms: ms.Dot('z', 'y') / ms.Count('y'),
    'Dot(z,w)/Sum(w)': lambda ms: ms.Dot('z', 'w') / ms.Sum('w'),
    'Cov(z,y)': lambda ms: ms.Cov('z', 'y'),
    'Variance(z)': lambda ms: ms.Variance('z'),
    'Cov(z,z)': lambda ms: ms.Cov('z', 'z'),
    'Sum(z) where y': lambda ms: ms.Sum('z', where='y > 0'),
    'Sum(z) where z': lambda ms: ms.Sum('z', where='z > 0'),
}.items():
  v(n, f, False)
v('Nth by w', lambda ms: ms.Nth('x', 0, 'w'), False)
for w in ('y > 0', 'y >= 0', 'y > 0 ', ('y > 0', 'w > 1'), ('w > 1', 'y > 0'),
          ['y > 0', 'y > 0'], '(y > 0) & (w > 1)', 'y > 0 or w > 1',
          ('y > 0 or w > 1',), 'y > 0 and w > 1'):
  v('Sum(x) where %r' % (w,), lambda ms, w=w: ms.Sum('x', where=w),
    not isinstance(w, str) or '&' not in w)
for n, f in {'a+b': lambda a, b: a + b, 'b+a': lambda a, b: b + a,
             'a-b': lambda a, b: a - b, 'b-a': lambda a, b: b - a,
             'a*b': lambda a, b: a * b, 'a/b': lambda a, b: a / b,
             'b/a': lambda a, b: b / a, 'a-1': lambda a, b: a - 1,
             'a--1': lambda a, b: a - (-1), 'a--2': lambda a, b: a - (-2),
             'a*-1': lambda a, b: a * -1, 'a*-2': lambda a, b: a * -2,
             'a*1.': lambda a, b: a * 1., 'a*1': lambda a, b: a * 1,
             '1-a': lambda a, b: 1 - a, 'a/2': lambda a, b: a / 2,
             '2/a': lambda a, b: 2 / a, 'a**2': lambda a, b: a**2,
             '(a+b)+1': lambda a, b: (a + b) + 1,
             'a+(b+1)': lambda a, b: a + (b + 1),
             'a-(b-1)': lambda a, b: a - (b - 1),
             '(a-b)-1': lambda a, b: (a - b) - 1,
             'a/b*2': lambda a, b: a / b * 2,
             'a/(b*2)': lambda a, b: a / (b * 2)}.items():
  v('op ' + n, lambda ms, f=f: f(ms.Sum('w'), ms.Count('w')))
v('Count where / Count', lambda ms: ms.Sum('x', where='y > 0') / ms.Count('x'))
v('Sum / Count where', lambda ms: ms.Sum('x') / ms.Count('x', where='y > 0'))
v('Sum / Count both', lambda ms: ms.Sum('x', where='y > 0') / ms.Count(
    'x', where='y > 0'))
v('Mean where', lambda ms: ms.Mean('x', where='y > 0'))
v('Sum / distinct', lambda ms: ms.Sum('x') / ms.Count('x', distinct=True))
v('wMean as Dot', lambda ms: ms.Dot('x', 'w') / ms.Sum('w'))
v('Mean w, where', lambda ms: ms.Mean('x', 'w', where='y > 0'))
v('Dot / where', lambda ms: ms.Dot('x', 'w', where='y > 0') / ms.Sum('w'))
LISTS = {'xy': ['x', 'y'], 'yx': ['y', 'x'], 'x': ['x'], 'xx': ['x', 'x'],
         'xyw': ['x', 'y', 'w']}
for n, l in LISTS.items():
  v('list ' + n, lambda ms, l=l: ms.MetricList([ms.Sum(z) for z in l]))
v('list where', lambda ms: ms.MetricList([ms.Sum(z) for z in 'xy'],
                                         where='y > 0'))
v('list inner where', lambda ms: ms.MetricList([
    ms.Sum('x', where='y > 0'), ms.Sum('y')]))
v('list tmpl', lambda ms: ms.MetricList([ms.Sum('x')], name_tmpl='A {}'))
v('list rename', lambda ms: ms.MetricList([ms.Sum('x')], rename_columns=['r']))
v('list2 tmpl', lambda ms: ms.MetricList([ms.Sum('x'), ms.Sum('y')],
                                         name_tmpl='A {}'))
v('list2 rename', lambda ms: ms.MetricList([ms.Sum('x'), ms.Sum('y')],
                                           rename_columns=['r', 's']))
v('list / a rename', lambda ms: (ms.MetricList([
    ms.Sum('x'), ms.Sum('y')]) / ms.Sum('w')).rename_columns(['r', 's']))
v('PercentChange list tmpl', lambda ms: ms.PercentChange(
    'c', 'a', ms.MetricList([ms.Sum('x'), ms.Sum('y')], name_tmpl='A {}')))
v('PercentChange list rename', lambda ms: ms.PercentChange(
    'c', 'a', ms.MetricList([ms.Sum('x'), ms.Sum('y')],
                            rename_columns=['r', 's'])))
v('PercentChange list', lambda ms: ms.PercentChange(
    'c', 'a', ms.MetricList([ms.Sum('x'), ms.Sum('y')])))
v('list names', lambda ms: ms.MetricList([ms.Sum('x', name='p')]))
v('list nested', lambda ms: ms.MetricList([ms.MetricList([ms.Sum('x')]),
                                           ms.Sum('y')]))
v('list / a', lambda ms: ms.MetricList([ms.Sum('x'), ms.Sum('y')]) / ms.Sum(
    'w'))
v('list / b', lambda ms: ms.MetricList([ms.Sum('x'), ms.Sum('y')]) / ms.Count(
    'w'))

SCALARS = {'sw': lambda ms: ms.Sum('w'), 'mw': lambda ms: ms.Mean('w'),
           'swf': lambda ms: ms.Sum('w', where='y > 0'),
           'swn': lambda ms: ms.Sum('w', name='n')}
for k, f in SCALARS.items():
  for n, kw in {'': {}, 'where': {'where': 'y > 0'}}.items():
    v('Distribution(h,%s,%s)' % (k, n),
      lambda ms, f=f, kw=kw: ms.Distribution('h', f(ms), **kw))
    v('HHI(h,%s,%s)' % (k, n), lambda ms, f=f, kw=kw: ms.HHI(
        'h', f(ms)) if not kw else ms.HHI('c', f(ms)))
  for n, kw in {'': {}, 'desc': {'ascending': False},
                'order': {'order': ['b', 'a', 'c']},
                'order2': {'order': ['c', 'a', 'b']},
                'orderdesc': {'order': ['c', 'a', 'b'], 'ascending': False},
                'sort': {'sort_by_values': True}}.items():
    v('CumulativeDistribution(h,%s,%s)' % (k, n),
      lambda ms, f=f, kw=kw: ms.CumulativeDistribution('h', f(ms), **kw),
      'sort' not in n and 'order' not in n)
  for c in ('PercentChange', 'AbsoluteChange'):
    for n, kw in {'': {}, 'base': {'include_base': True}}.items():
      for b in 'ab':
        v('%s(c,%s,%s,%s)' % (c, b, k, n), lambda ms, c=c, f=f, kw=kw, b=b:
          getattr(ms, c)('c', b, f(ms), **kw))
    v('%s(h,b,%s)' % (c, k), lambda ms, c=c, f=f: getattr(ms, c)(
        'h', 'b', f(ms)))
    v('%s(-1,%s)' % (c, k), lambda ms, c=c, f=f: getattr(ms, c)(
        'k', -1, f(ms)), False)
    v('%s(-2,%s)' % (c, k), lambda ms, c=c, f=f: getattr(ms, c)(
        'k', -2, f(ms)), False)
  v('Entropy(h,%s)' % k, lambda ms, f=f: ms.Entropy('h', f(ms)))
  for z in (1, 2):
    v('TopK(h,%s,%s)' % (z, k), lambda ms, f=f, z=z: ms.TopK('h', z, f(ms)),
      False)
  for z in (.5, .8):
    v('Nxx(h,%s,%s)' % (z, k), lambda ms, f=f, z=z: ms.Nxx('h', z, f(ms)),
      False)
  for c in ('u', 's'):
    for kw in ({}, {'confidence': .9}, {'confidence': .95},
               {'where': 'y > 0'}):
      v('Jackknife(%s,%s,%s)' % (c, k, kw), lambda ms, f=f, c=c, kw=kw:
        ms.Jackknife(c, f(ms), **kw), False)
for c in ('Bootstrap', 'PoissonBootstrap'):
  for u in (None, 'u', 's'):
    for n in (3, 4):
      for kw in ({}, {'confidence': .9}):
        v('%s(%s,%s,%s)' % (c, u, n, kw), lambda ms, c=c, u=u, n=n, kw=kw:
          getattr(ms, c)(u, ms.Sum('x'), n, **kw), False)
for st in ('s', 'g', ['s', 'g']):
  for b in 'ab':
    for kw in ({}, {'include_base': True}):
      v('MH(c,%s,%s,%s)' % (b, st, kw), lambda ms, st=st, b=b, kw=kw: ms.MH(
          'c', b, st, ms.Ratio('x', 'w'), **kw), False)
v('MH mean', lambda ms: ms.MH('c', 'a', 's', ms.Sum('w') / ms.Count('w')),
  False)
v('MH ratio', lambda ms: ms.MH('c', 'a', 's', ms.Mean('w')), False)
for c in ('PrePostChange', 'CUPED'):
  for kw in ({}, {'include_base': True}):
    for cov in ('w', 'f', 'wf', 'fw'):
      for b in 'ab':
        v('%s(%s,%s,%s)' % (c, b, cov, kw), lambda ms, c=c, kw=kw, cov=cov, b=b:
          getattr(ms, c)('c', b, ms.Sum('y'), [ms.Sum(z) for z in cov], 'u',
                         **kw), False)
MODELS = {
    'LinearRegression': [{}, {'fit_intercept': False}, {'normalize': True}],
    'Ridge': [{}, {'alpha': 3}, {'fit_intercept': False}, {'solver': 'svd'},
              {'normalize': True}],
    'Lasso': [{}, {'alpha': .01}, {'fit_intercept': False}, {'max_iter': 1},
              {'positive': True, 'alpha': .01}, {'tol': .5}],
    'ElasticNet': [{}, {'alpha': .01}, {'l1_ratio': .9}, {'max_iter': 1},
                   {'positive': True, 'alpha': .01}, {'fit_intercept': False}],
}
for c, kws in MODELS.items():
  for kw in kws:
    for xs in ('xw', 'wx', 'x'):
      v('%s(%s,%s)' % (c, xs, kw), lambda ms, c=c, kw=kw, xs=xs: getattr(
          ms.models, c)(ms.Sum('y'), [ms.Sum(z) for z in xs], 'u', **kw),
        False)
  v(c + ' by us', lambda ms, c=c: getattr(ms.models, c)(
      ms.Sum('y'), [ms.Sum('x')], ['u', 's']), False)
LABELS = list(V)


def table(rng, n=40):
  rows = []
  ys = rng.sample(range(-40, 60), n)
  for j in range(n):
    rows.append({'x': rng.choice(O.NUMS), 'y': ys[j] / 8.,
                 'w': rng.choice(O.POS), 'f': float(rng.randint(1, 4)),
                 'g': rng.choice('ab'), 'h': rng.choice('abc'),
                 'c': 'abc'[j % 3], 's': 'ab'[j // 3 % 2],
                 'u': 'u%d' % rng.randint(1, 6), 'k': rng.choice([-1, -2, 3]),
                 'z': None if rng.random() < 0.3 else rng.choice(O.NUMS)})
  return rows


SCHEMA = {'x': 'num', 'y': 'num', 'w': 'pos', 'f': 'pos', 'g': 'key',
          'h': 'key', 'c': 'key', 's': 'key', 'u': 'key', 'k': 'num',
          'z': 'num?'}


def run(m, df, by, **kw):
  np.random.seed(7)
  return C05.quiet(m.compute_on, df, by, **kw)


def compare_values(a, b):
  ra, rb = isinstance(a, compare.Raised), isinstance(b, compare.Raised)
  if ra or rb:
    return None if ra and rb else 'one raises: %s / %s' % (a, b)
  return compare.diff(C05.columns(a), C05.columns(b), {}, 1e-9)


def differs(ms, a, b, rng, case, what, key=None):
  """Raises when fresh metrics of two builders differ on some table."""
  for n in range(3):
    rows = table(rng)
    df = O.to_df(SCHEMA, rows)
    by = [[], ['g']][n % 2]
    d = compare_values(run(a(ms), df, by), run(b(ms), df, by))
    if d:
      raise O.Mismatch('%s but differ: %s' % (what, d), dict(
          case, rows=rows, by=by), key)


def key_of(p, q):
  # Only for the same model with and without positive=True.
  if ('positive' in p) != ('positive' in q) and (
      p.split('(')[0] == q.split('(')[0]):
    return 'C06-positive'
  return None


@O.suite('C06.matrix', P, FNS, len(LABELS), len(LABELS))
def matrix(ms, rng, i):
  """Every metric of the matrix against all others."""
  p = LABELS[i]
  a = V[p](ms)
  case = {'metric': p}
  if not a == V[p](ms) or a != V[p](ms) or hash(a) != hash(V[p](ms)):
    raise O.Mismatch('%s is not equal to itself built again' % p, case)
  c = copy.deepcopy(a)
  if not a == c or not c == a or hash(a) != hash(c):
    raise O.Mismatch('%s is not equal to its copy' % p, case)
  n = 0
  for q in LABELS:
    if q == p:
      continue
    b = V[q](ms)
    e = a == b
    if e != (b == a) or e == (a != b):
      raise O.Mismatch('%s and %s: equality is not symmetric' % (p, q), case)
    if e and hash(a) != hash(b):
      raise O.Mismatch('%s and %s are equal with different hashes' % (p, q),
                       case)
    if e and p < q:
      n += 1
      differs(ms, V[p], V[q], rng, {'metrics': [p, q]},
              '%s and %s are equal' % (p, q), key_of(p, q))
  return (n > 0,)


@O.suite('C06.cache', P, FNS, 10, 60)
def cache(ms, rng, i):
  """All metrics of the matrix, in random order, sharing one cache."""
  order = LABELS[:]
  rng.shuffle(order)
  rows = table(rng)
  df = O.to_df(SCHEMA, rows)
  by = [[], ['g'], ['g', 's']][i % 3]
  shared = {}
  for p in order:
    if by and set(by) & {'s'} and ("'s'" in p or 's,' in p or 'MH' in p
                                   or 'us' in p):
      continue
    if by and ('MH' in p):
      continue
    if 'positive' in p:  # Compared in C06.matrix.
      continue
    a = run(V[p](ms), df, by, cache_key='k', cache=shared)
    b = run(V[p](ms), df, by)
    d = compare_values(a, b)
    if d:
      raise O.Mismatch('%s after others with a shared cache: %s' % (p, d), {
          'order': order, 'by': by, 'rows': rows})
  return (len(by),)


def mutate(rng, t):
  """t with one thing changed, or written differently."""
  if isinstance(t, (int, float)):
    return rng.choice([t + 1, -t, float(t)])
  if t[0] == 'leaf':
    r = rng.random()
    kw = dict(t[3])
    if r < .4:
      kw.pop('where', None)
      kw.update(T.where(rng))
    elif r < .5 and isinstance(kw.get('where'), tuple):
      kw['where'] = kw['where'][::-1]
    elif r < .7 and len(t[2]) > 1 and isinstance(t[2][1], str):
      return t[:2] + ((t[2][1], t[2][0]) + t[2][2:],) + t[3:]
    else:
      for f in ('unbiased', 'bias', 'ascending', 'normalize', 'distinct'):
        if f in kw:
          kw[f] = not kw[f]
          break
      else:
        return T.leaf(rng)
    return t[:3] + (kw,)
  if t[0] == 'op':
    r = rng.random()
    if r < .25:
      return (t[0], t[1], t[3], t[2]) if t[1] != '**' else t
    if r < .4 and t[1] != '**':
      return (t[0], rng.choice('+-*/'), t[2], t[3])
    if r < .5 and t[1] != '**' and not isinstance(t[2], (int, float)) and (
        t[2][0] == 'op' and t[2][1] != '**'):
      return (t[0], t[1], t[2][2], (t[0], t[2][1], t[2][3], t[3]))
    k = rng.choice([2, 3]) if t[1] != '**' else 2
    return t[:k] + (mutate(rng, t[k]),) + t[k + 1:]
  if t[0] == 'list':
    r = rng.random()
    l = list(t[1])
    if r < .3:
      rng.shuffle(l)
    elif r < .4 and len(l) > 1:
      l.pop()
    elif r < .5:
      return (t[0], l, T.where(rng))
    else:
      k = rng.randrange(len(l))
      l[k] = mutate(rng, l[k])
    return (t[0], l, t[2])
  r = rng.random()
  if r < .3 or t[1] == 'MH':
    kw = {k: z for k, z in t[4].items() if k != 'where'}
    return t[:4] + (dict(kw, **T.where(rng)),)
  if r < .45 and t[1] in ('PercentChange', 'AbsoluteChange'):
    return t[:4] + (dict(t[4], include_base=not t[4].get('include_base')),)
  if r < .55 and t[1] in ('PercentChange', 'AbsoluteChange'):
    return t[:2] + (('c', 'b'),) + t[3:]
  return t[:3] + (mutate(rng, t[3]), t[4])


def mut_run(ms, rng, i, kind):
  t = T.tree(rng, kind)
  z = t
  for _ in range(rng.choice([0, 1, 1, 1, 2])):
    z = mutate(rng, z)
  a, b = T.build(ms, t), T.build(ms, z)
  case = {'a': t, 'b': z}
  e = a == b
  if repr(t) == repr(z) and not e:
    raise O.Mismatch('a metric is not equal to itself built again', case)
  if e != (b == a) or e == (a != b) or e and hash(a) != hash(b):
    raise O.Mismatch('equality is not symmetric or differs from hashing', case)
  if e:
    differs(ms, lambda ms: T.build(ms, t), lambda ms: T.build(ms, z), rng,
            case, 'the metrics are equal')
  # one after the other with a shared cache
  rows = table(rng, 24)
  df = O.to_df(SCHEMA, rows)
  by = rng.choice([[], ['g']])
  shared = {}
  pair = [t, z]
  rng.shuffle(pair)
  for q in pair:
    d = compare_values(
        run(T.build(ms, q), df, by, cache_key='k', cache=shared),
        run(T.build(ms, q), df, by))
    if d:
      raise O.Mismatch('sharing a cache with a similar metric: %s' % d, dict(
          case, pair=pair, rows=rows, by=by))
  # as operands of one metric
  if not kind and t[0] != 'list' and z[0] != 'list':
    x, y = (C05.value(ms, q, df, by) for q in (t, z))
    if isinstance(x, dict) and isinstance(y, dict):
      f = C05.frame(C05.quiet((a - b).compute_on, df, by))
      for k in (f[2] if f else ()):
        if k in x and k in y and x[k] is not None and y[k] is not None and (
            not compare.close(f[2][k][0], x[k] - y[k], 1e-7)):
          raise O.Mismatch('the difference of similar metrics is %s, alone %s '
                           'and %s' % (f[2][k][0], x[k], y[k]), dict(
                               case, rows=rows, by=by))
  return (kind, e, t == z)


for _k in ('', 'h', 'c'):
  O.Suite('C06.similar.%s' % (_k or 'flat'), P, FNS,
          lambda ms, rng, i, k=_k: mut_run(ms, rng, i, k), 150, 2500,
          what='metrics that differ in one place')


# ------------------------------------------------------------- obligations
# Pairs that the code treats as equal, or that share a cached result.
PAIRS = [(p, q) for p, q in (
    ('Ratio(x,y)', 'Sum(x)/Sum(y)'), ('Ratio(x,w)', 'Sum(x)/Sum(w)'),
    ('Mean(x,None)', 'Sum/Count'), ('Mean(x,w)', 'wMean as Dot'),
    ('Mean where', 'Sum / Count both'), ('Dot(x,y,True)', 'mean of product'),
    ("Sum(x) where ('y > 0', 'w > 1')", "Sum(x) where ('w > 1', 'y > 0')"),
    ("Sum(x) where 'y > 0'", "Sum(x) where ['y > 0', 'y > 0']"),
    ("Sum(x) where 'y > 0 or w > 1'", "Sum(x) where ('y > 0 or w > 1',)"),
    ("Sum(x) where 'y > 0 and w > 1'", "Sum(x) where ('w > 1', 'y > 0')"),
    ('op a*1', 'op a*1.'), ('Cov(x,y,{})', 'Cov(y,x,{})'),
    ("Cov(x,y,{'bias': True})", "Cov(y,x,{'bias': True})"),
    ("Cov(x,y,{'weight': 'w'})", "Cov(y,x,{'weight': 'w'})"),
    ('Cov(x,y,{})', "Cov(x,y,{'bias': False})"),
    ('Cov(x,y,{})', "Cov(x,y,{'ddof': 1})"),
    ("Cov(x,y,{'bias': True})", "Cov(x,y,{'ddof': 0})"),
    ('Correlation(x,y,{})', 'Correlation(y,x,{})'),
    ("Correlation(x,y,{'weight': 'w'})", "Correlation(y,x,{'weight': 'w'})"),
    ('Dot(x,y,False)', 'Dot(y,x,False)'), ('Dot(x,y,True)', 'Dot(y,x,True)'),
    ('op (a+b)+1', 'op a+(b+1)'), ('op a-(b-1)', 'op (a-b)-1'),
    ('op a/b*2', 'op a/(b*2)'), ('op a+b', 'op b+a'), ('op a/b', 'op b/a'),
    ('Sum / Count where', 'Sum / Count both'),
    ('Sum / Count where', 'Mean where'), ('Mean(x,None)', 'Sum / distinct'),
    ('list xy', 'list yx'), ('list x', 'list names'),
    ('list inner where', 'list where'), ('list / a', 'list / b'),
    ('Distribution(h,sw,)', 'Distribution(h,swn,)'),
    ('Distribution(h,sw,where)', 'Distribution(h,swf,)'),
    ('Distribution(h,swf,where)', 'Distribution(h,swf,)'),
    ('PercentChange(c,a,sw,)', 'PercentChange(c,a,swn,)'),
    ('PercentChange(c,a,sw,)', 'PercentChange(c,b,sw,)'),
    ('AbsoluteChange(c,a,sw,)', 'PercentChange(c,a,sw,)'),
    ('AbsoluteChange(c,a,sw,)', 'AbsoluteChange(c,a,sw,base)'),
    ('HHI(h,sw,)', 'Entropy(h,sw)'), ('HHI(h,sw,)', 'HHI(h,swn,)'),
    ('CumulativeDistribution(h,sw,)', 'CumulativeDistribution(h,sw,desc)'),
)]
V['Sum/Count'] = lambda ms: ms.Sum('x') / ms.Count('x')
V['mean of product'] = lambda ms: ms.Dot('x', 'y') / ms.Count('x')
OBSCHEMA = {'x': 'num', 'y': 'num', 'w': 'pos', 'h': 'key', 'c': 'key',
            'g': 'key'}


def when_equal(p, q, by, take):
  """The values of p (or q) if both are treated as equal."""
  def f(ms, df):
    if not V[p](ms) == V[q](ms):
      return 0.0
    return V[(p, q)[take]](ms).compute_on(df, by)
  return f


def one_cache(p, q, by, order):
  def f(ms, df):
    shared = {}
    return [V[z](ms).compute_on(df, by, cache_key='k', cache=shared)
            for z in (p, q)[::order]]
  return f


def gen(rng, i):
  rows = T.table(rng, 5, 12, nulls=False)
  rows[1]['c'], rows[2]['c'], rows[3]['c'] = 'b', 'a', 'c'
  rows[1]['h'], rows[2]['h'] = 'a', 'b'
  return [{c: r[c] for c in OBSCHEMA} for r in rows]


base = [lambda rows, l=l: rows.at(c=l).exists() for l in 'ab']
for _p, _q in PAIRS:
  for _by in ([], ['g']):
    _id = '%s==%s.%s' % (_p, _q, ''.join(_by) or 'all')
    _id = ''.join(z for z in _id if z not in " '{}")
    O.Obligation('C06.equal.' + _id, P, FNS, OBSCHEMA,
                 when_equal(_p, _q, _by, 0), spec2=when_equal(_p, _q, _by, 1),
                 gen=gen, n=6, needs=base, may_raise=KeyError)
    for _o in (1, -1):
      O.Obligation(
          'C06.cached.%s.%s' % (_id, 'pq' if _o > 0 else 'qp'), P, FNS,
          OBSCHEMA, one_cache(_p, _q, _by, _o),
          spec2=lambda ms, df, l=(_p, _q)[::_o], by=_by: [
              V[z](ms).compute_on(df, by) for z in l],
          gen=gen, n=4, needs=base, may_raise=KeyError)
