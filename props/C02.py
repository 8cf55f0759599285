"""C02: each basic metric equals its textbook definition on every slice."""
from engine import obligation as O
from engine import spec as S
from props import sqlalso

P = 'C02'
LEVEL = 'proof'
TECHNIQUE = ('contract-based deductive verification: symbolic execution of the '
             'real code over contracts for pandas, obligations discharged by '
             'z3 and aggregate rules; replay on real pandas')
NOTE = ('Every basic metric against its textbook definition for all tables of '
        'any size; the concrete replay and the suites for order-dependent '
        'metrics are bounded.')
NUM = {'x': 'num', 'y': 'num', 'g': 'key', 'h': 'key'}
NUL = {'x': 'num?', 'y': 'num', 'g': 'key', 'h': 'key'}
NULY = {'x': 'num?', 'y': 'num?', 'g': 'key', 'h': 'key'}
WTD = {'x': 'num', 'w': 'pos', 'g': 'key', 'h': 'key'}
SPLITS = {'all': [], 'g': ['g'], 'gh': ['g', 'h']}


def spec(by, label, f):
  return lambda rows: S.frame(rows, by, [(label, f)])


def define(id, fns, schema, metric, label, f, splits=('all', 'g', 'gh'), **kw):
  for s in splits:
    by = SPLITS[s]
    O.Obligation(
        'C02.%s.%s' % (id, s), P,
        ['metrics.Metric.compute_on', 'metrics.Metric.compute_through',
         'metrics.Metric.manipulate'] + fns, schema,
        lambda ms, df, by=by: metric(ms).compute_on(df, by),
        spec(by, label, f), **kw)


def nn(x):
  return lambda g: g.where(lambda r: ~r.null(x))


X = lambda r: r.x
Y = lambda r: r.y

define('sum', ['metrics.Sum.compute_slices', 'metrics.Metric.group'], NUL,
       lambda ms: ms.Sum('x'), 'sum(x)', lambda g: g.sum('x'))
define('count', ['metrics.Count.compute_slices'], NUL,
       lambda ms: ms.Count('x'), 'count(x)', lambda g: g.count('x'))
define('count_distinct', ['metrics.Count.compute_slices'], NUL,
       lambda ms: ms.Count('x', distinct=True), 'count(distinct x)',
       lambda g: g.nunique('x'))
define('mean', ['metrics.Mean.compute_slices'], NUL,
       lambda ms: ms.Mean('x'), 'mean(x)', lambda g: g.mean('x'))
define('wmean', ['metrics.Mean.compute_slices'], WTD,
       lambda ms: ms.Mean('x', 'w'), 'w-weighted mean(x)',
       lambda g: g.sum(lambda r: r.x * r.w) / g.sum('w'))
define('dot', ['metrics.Dot.compute_slices'], NULY,
       lambda ms: ms.Dot('x', 'y'), 'sum(x * y)',
       lambda g: g.sum(lambda r: r.x * r.y))
define('dot_norm', ['metrics.Dot.compute_slices'], NULY,
       lambda ms: ms.Dot('x', 'y', True), 'mean(x * y)',
       lambda g: g.mean(lambda r: r.x * r.y))
define('max', ['metrics.Max.compute_slices'], NUL,
       lambda ms: ms.Max('x'), 'max(x)', lambda g: g.max('x'))
define('min', ['metrics.Min.compute_slices'], NUL,
       lambda ms: ms.Min('x'), 'min(x)', lambda g: g.min('x'))
for q in (0.5, 0.1, 0.29, 1):
  for i in ('linear', 'lower'):
    define('quantile.%s.%s' % (q, i), ['metrics.Quantile.compute_slices'], NUL,
           lambda ms, q=q, i=i: ms.Quantile('x', q, interpolation=i),
           'quantile(x, %s)' % q,
           lambda g, q=q, i=i: g.quantile('x', q, i), splits=('all', 'g'))
for ddof, unb in ((1, True), (0, False)):
  t = 'unbiased' if unb else 'biased'
  define('var.' + t, ['metrics.Variance.compute_slices'], NUL,
         lambda ms, u=unb: ms.Variance('x', u), 'var(x)',
         lambda g, d=ddof: g.var('x', d))
  define('sd.' + t, ['metrics.StandardDeviation.compute_slices'], NUL,
         lambda ms, u=unb: ms.StandardDeviation('x', u), 'sd(x)',
         lambda g, d=ddof: g.std('x', d))
  define('cv.' + t, ['metrics.CV.compute_slices'], NUL,
         lambda ms, u=unb: ms.CV('x', u), 'cv(x)',
         lambda g, d=ddof: g.std('x', d) / g.mean('x'))

# ------------------------------------------------ weighted / two-variable
W2 = {'x': 'num', 'y': 'num', 'w': 'pos', 'g': 'key', 'h': 'key'}


def wmean(g, f, w='w'):
  return g.sum(lambda r: f(r) * r[w]) / g.sum(w)


def wss(g, f1, f2, w='w'):
  m1, m2 = S.val(wmean(g, f1, w)), S.val(wmean(g, f2, w))
  return g.sum(lambda r: r[w] * (f1(r) - m1) * (f2(r) - m2))


for ddof, unb in ((1, True), (0, False)):
  t = 'unbiased' if unb else 'biased'

  def wvar(g, d=ddof):
    den = g.sum('w') - d
    return S.cond(den < 0, S.NULL, wss(g, X, X) / den)

  define('wvar.' + t, ['metrics.Variance.get_equivalent_without_filter',
                       'metrics.Variance.get_auxiliary_cols'], W2,
         lambda ms, u=unb: ms.Variance('x', u, 'w'), 'w-weighted var(x)', wvar)
  define('wsd.' + t,
         ['metrics.StandardDeviation.get_equivalent_without_filter'], W2,
         lambda ms, u=unb: ms.StandardDeviation('x', u, 'w'),
         'w-weighted sd(x)', lambda g, f=wvar: S.sqrt(f(g)))


def cov(g, ddof):
  n, mx, my = g.count('x'), S.val(g.mean('x')), S.val(g.mean('y'))
  return S.cond(n < ddof, S.NULL, g.sum(
      lambda r: (r.x - mx) * (r.y - my)) / (n - ddof))


for t, kw, ddof in (('unbiased', {}, 1), ('biased', {'bias': True}, 0),
                    ('ddof2', {'ddof': 2}, 2), ('ddof0', {'ddof': 0}, 0)):
  define('cov.' + t, ['metrics.Cov.get_equivalent_without_filter',
                      'metrics.Metric.compute_equivalent'], W2,
         lambda ms, kw=kw: ms.Cov('x', 'y', **kw), 'cov(x, y)',
         lambda g, d=ddof: cov(g, d))


def wcov(g, ddof):
  v1, v2 = g.sum('w'), g.sum(lambda r: r.w * r.w)
  den = v1 - ddof * v2 / v1
  return S.cond(den < 0, S.NULL, wss(g, X, Y) / den)


def fcov(g, ddof):
  den = g.sum('w') - ddof
  return S.cond(den < 0, S.NULL, wss(g, X, Y) / den)


define('wcov.unbiased', ['metrics.Cov.get_equivalent_without_filter'], W2,
       lambda ms: ms.Cov('x', 'y', weight='w'), 'w-weighted cov(x, y)',
       lambda g: wcov(g, 1))
define('wcov.biased', ['metrics.Cov.get_equivalent_without_filter'], W2,
       lambda ms: ms.Cov('x', 'y', True, weight='w'), 'w-weighted cov(x, y)',
       lambda g: wcov(g, 0))
define('fcov.unbiased', ['metrics.Cov.get_equivalent_without_filter'], W2,
       lambda ms: ms.Cov('x', 'y', fweight='w'), 'w-fweighted cov(x, y)',
       lambda g: fcov(g, 1))
define('fcov.biased', ['metrics.Cov.get_equivalent_without_filter'], W2,
       lambda ms: ms.Cov('x', 'y', True, fweight='w'), 'w-fweighted cov(x, y)',
       lambda g: fcov(g, 0))


def corr(g):
  """Undefined when either variable does not vary."""
  mx, my = S.val(g.mean('x')), S.val(g.mean('y'))
  sxx = g.sum(lambda r: (r.x - mx)**2)
  syy = g.sum(lambda r: (r.y - my)**2)
  sxy = g.sum(lambda r: (r.x - mx) * (r.y - my))
  return S.cond((sxx == 0) | (syy == 0), S.NULL, S.val(
      sxy / (S.sqrt(sxx) * S.sqrt(syy))))


def wcorr(g):
  n = g.sum('w')
  v = lambda f1, f2: wss(g, f1, f2) / n
  return v(X, Y) / S.sqrt(v(X, X)) / S.sqrt(v(Y, Y))


define('corr', ['metrics.Correlation.compute_slices'], W2,
       lambda ms: ms.Correlation('x', 'y'), 'corr(x, y)', corr)
define('wcorr', ['metrics.Correlation.get_equivalent_without_filter'], W2,
       lambda ms: ms.Correlation('x', 'y', weight='w'),
       'w-weighted corr(x, y)',
       wcorr)
define('ratio', ['metrics.Ratio.__init__',
                 'metrics.CompositeMetric.compute_slices'], NULY,
       lambda ms: ms.Ratio('x', 'y'), 'sum(x) / sum(y)',
       lambda g: g.sum('x') / g.sum('y'))


# ------------------------------------------------- the same on SQL
sqlalso.also(P, sqlalso.entries(
    'sum', 'count*', 'mean', 'wmean', 'max', 'min', 'dot*', 'variance*',
    'wvariance*', 'sd', 'wsd_b', 'cv*', 'cov*', 'wcov', 'corr', 'wcorr', 'nth*',
    'ratio'), sqlalso.trees(
        'dot_where', 'corr_where', 'cov_where', 'wmean_where', 'sd_where',
        'variance_list', 'nth0', 'nth2', 'wquantile*', 'ratio_where'))
