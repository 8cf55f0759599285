"""A catalog of metric trees used by the properties about every metric."""
from engine import obligation as O

SCH = {'x': 'num', 'y': 'num', 'w': 'pos', 'g': 'key', 'h': 'key', 'c': 'key',
       'u': 'key', 's': 'key'}
CAT = {}


class Entry(object):
  """build(ms, **kw): the metric; kw (where) goes to the outermost node."""

  def __init__(self, name, build, cols, ded=True, extra=(), cond=False,
               rand=False, sql=True, rows=(4, 14), ties=True, kw=True,
               jk=False, unit=False, mixed=True, filters=(), fns=()):
    self.name, self.build = name, build
    self.cols = cols      # columns of the table it needs
    self.ded = ded        # within reach of the symbolic contracts
    self.extra = list(extra)  # index columns it adds
    self.cond = cond      # needs the baseline label 'a' in column c
    self.rand = rand      # result depends on random numbers
    self.sql = sql        # can be translated to SQL
    self.rows = rows      # sizes of concrete tables
    self.ties = ties      # defined in presence of ties
    self.kw = kw          # accepts where=
    self.unit = unit      # resamples units
    self.mixed = mixed
    self.filters = filters  # row predicates of the filters of its parts
    self.fns = list(fns)
    CAT[name] = self


def E(name, build, cols, **kw):
  return Entry(name, build, cols.split(), **kw)


# ------------------------------------------------------------ simple metrics
E('sum', lambda ms, **k: ms.Sum('x', **k), 'x', fns=['metrics.Sum'])
E('count', lambda ms, **k: ms.Count('x', **k), 'x', fns=['metrics.Count'])
E('count_distinct', lambda ms, **k: ms.Count('x', distinct=True, **k), 'x',
  fns=['metrics.Count'])
E('mean', lambda ms, **k: ms.Mean('x', **k), 'x', fns=['metrics.Mean'])
E('wmean', lambda ms, **k: ms.Mean('x', 'w', **k), 'x w',
  fns=['metrics.Mean'])
E('max', lambda ms, **k: ms.Max('x', **k), 'x', fns=['metrics.Max'])
E('min', lambda ms, **k: ms.Min('x', **k), 'x', fns=['metrics.Min'])
E('dot', lambda ms, **k: ms.Dot('x', 'y', **k), 'x y', fns=['metrics.Dot'])
E('dot_norm', lambda ms, **k: ms.Dot('x', 'y', True, **k), 'x y',
  fns=['metrics.Dot'])
E('median', lambda ms, **k: ms.Quantile('x', **k), 'x', sql='approx',
  fns=['metrics.Quantile'])
E('quantiles', lambda ms, **k: ms.Quantile('x', (0.1, 0.5, 0.9), **k), 'x',
  ded=False, sql='approx', fns=['metrics.Quantile'])
E('wquantile', lambda ms, **k: ms.Quantile('x', 0.3, weight='w', **k), 'x w',
  ded=False, sql=False, fns=['metrics.Quantile'])
E('variance', lambda ms, **k: ms.Variance('x', **k), 'x',
  fns=['metrics.Variance'])
E('variance_b', lambda ms, **k: ms.Variance('x', False, **k), 'x',
  fns=['metrics.Variance'])
E('wvariance', lambda ms, **k: ms.Variance('x', weight='w', **k), 'x w',
  fns=['metrics.Variance'])
E('wvariance_b', lambda ms, **k: ms.Variance('x', False, weight='w', **k),
  'x w', fns=['metrics.Variance'])
E('sd', lambda ms, **k: ms.StandardDeviation('x', **k), 'x',
  fns=['metrics.StandardDeviation'])
E('wsd_b', lambda ms, **k: ms.StandardDeviation('x', False, weight='w', **k),
  'x w', fns=['metrics.StandardDeviation'])
E('cv', lambda ms, **k: ms.CV('x', **k), 'x', fns=['metrics.CV'])
E('cv_b', lambda ms, **k: ms.CV('x', False, **k), 'x', fns=['metrics.CV'])
E('cov', lambda ms, **k: ms.Cov('x', 'y', **k), 'x y', fns=['metrics.Cov'])
E('cov_b', lambda ms, **k: ms.Cov('x', 'y', bias=True, **k), 'x y',
  fns=['metrics.Cov'])
E('wcov', lambda ms, **k: ms.Cov('x', 'y', weight='w', **k), 'x y w',
  fns=['metrics.Cov'])
E('corr', lambda ms, **k: ms.Correlation('x', 'y', **k), 'x y',
  fns=['metrics.Correlation'])
E('wcorr', lambda ms, **k: ms.Correlation('x', 'y', weight='w', **k), 'x y w',
  fns=['metrics.Correlation'])
E('spearman', lambda ms, **k: ms.Correlation('x', 'y', method='spearman', **k),
  'x y', ded=False, sql=False, fns=['metrics.Correlation'])
E('nth', lambda ms, **k: ms.Nth('x', 1, 'y', **k), 'x y', ded=False,
  ties=False, sql=True, fns=['metrics.Nth'])
E('nth_desc', lambda ms, **k: ms.Nth('x', 0, 'y', ascending=False,
                                     dropna=True, **k),
  'x y', ded=False, ties=False, fns=['metrics.Nth'])
E('ratio', lambda ms, **k: ms.Ratio('x', 'w', **k), 'x w',
  fns=['metrics.Ratio'])

# ------------------------------------------------------------ composites
E('comp_ratio', lambda ms, **k: (ms.Sum('x') / ms.Sum('w')), 'x w', kw=False,
  fns=['metrics.CompositeMetric'])
E('comp_mean', lambda ms, **k: (ms.Sum('x') / ms.Count('x')), 'x', kw=False,
  fns=['metrics.CompositeMetric'])
E('comp_mix', lambda ms, **k: (2 * ms.Mean('x') - ms.Max('y') + 1), 'x y',
  kw=False, fns=['metrics.CompositeMetric'])
E('comp_where', lambda ms, **k: (ms.Sum('x', where='y > 0') - ms.Sum(
    'x', where='y < 3')), 'x y', kw=False, filters=(
        lambda r: r['y'] > 0, lambda r: r['y'] < 3), fns=['metrics.CompositeMetric'])
E('comp_pow', lambda ms, **k: (ms.Sum('w')**2 + ms.Count('w')**0.5), 'w',
  kw=False, fns=['metrics.CompositeMetric'])
E('list', lambda ms, **k: ms.MetricList([ms.Sum('x'), ms.Count('y')], **k),
  'x y', fns=['metrics.MetricList'])
E('list_mix', lambda ms, **k: ms.MetricList(
    [ms.Mean('x'), ms.Sum('x') / ms.Sum('w'), ms.Variance('y'), ms.Sum('x')],
    **k), 'x y w', fns=['metrics.MetricList'])
E('list_where', lambda ms, **k: ms.MetricList(
    [ms.Sum('x', where='y > 1'), ms.Mean('x')], **k), 'x y',
  filters=(lambda r: r['y'] > 1,),
  fns=['metrics.MetricList'])
E('list_arith', lambda ms, **k: ms.MetricList(
    [ms.Sum('x'), ms.Sum('y')]) / ms.Sum('w'), 'x y w', kw=False,
  fns=['metrics.MetricList'])

# ------------------------------------------------------------ operations
E('dist', lambda ms, **k: ms.Distribution('h', ms.Sum('w'), **k), 'w h',
  extra=['h'], fns=['operations.Distribution'])
E('dist_list', lambda ms, **k: ms.Distribution('h', ms.MetricList(
    [ms.Sum('w'), ms.Count('x')]), **k), 'x w h', extra=['h'],
  fns=['operations.Distribution'])
E('cumdist', lambda ms, **k: ms.CumulativeDistribution('h', ms.Sum('w'), **k),
  'w h', extra=['h'], fns=['operations.CumulativeDistribution'])
E('cumdist_desc', lambda ms, **k: ms.CumulativeDistribution(
    'h', ms.Count('x'), ascending=False, **k), 'x h', extra=['h'],
  fns=['operations.CumulativeDistribution'])
E('cumdist_order', lambda ms, **k: ms.CumulativeDistribution(
    'h', ms.Sum('w'), order=['b', 'a', 'c'], **k), 'w h', extra=['h'],
  fns=['operations.CumulativeDistribution'])
E('pct', lambda ms, **k: ms.PercentChange('c', 'a', ms.Sum('w'), **k), 'w c',
  extra=['c'], cond=True, fns=['operations.PercentChange'])
E('pct_base', lambda ms, **k: ms.PercentChange(
    'c', 'a', ms.Mean('w'), include_base=True, **k), 'w c', extra=['c'],
  cond=True, fns=['operations.PercentChange'])
E('abs', lambda ms, **k: ms.AbsoluteChange('c', 'a', ms.Mean('x'), **k),
  'x c', extra=['c'], cond=True, fns=['operations.AbsoluteChange'])
E('abs_base', lambda ms, **k: ms.AbsoluteChange(
    'c', 'a', ms.Mean('x'), include_base=True, **k), 'x c', extra=['c'],
  cond=True, fns=['operations.AbsoluteChange'])
E('abs_list', lambda ms, **k: ms.AbsoluteChange('c', 'a', ms.MetricList(
    [ms.Mean('x'), ms.Sum('x') / ms.Sum('w')]), **k), 'x w c', extra=['c'],
  cond=True, fns=['operations.AbsoluteChange'])
E('pct_multi', lambda ms, **k: ms.PercentChange(
    ['c', 'h'], ('a', 'b'), ms.Sum('w'), **k), 'w c h', extra=['c', 'h'],
  cond=True, fns=['operations.PercentChange'])
E('mh', lambda ms, **k: ms.MH('c', 'a', 's', ms.Sum('w') / ms.Count('w'),
                              **k), 'w c s', extra=['c'], cond=True,
  fns=['operations.MH'])
E('mh_list', lambda ms, **k: ms.MH('c', 'a', 's', ms.MetricList(
    [ms.Sum('w') / ms.Count('w'), ms.Ratio('x', 'w')]), **k), 'x w c s',
  extra=['c'], cond=True, fns=['operations.MH'])
E('pct_of_dist', lambda ms, **k: ms.PercentChange('c', 'a', ms.Distribution(
    'h', ms.Sum('w')), **k), 'w c h', extra=['c', 'h'], cond=True,
  fns=['operations.PercentChange', 'operations.Distribution'])
E('dist_of_abs', lambda ms, **k: ms.Distribution('h', ms.AbsoluteChange(
    'c', 'a', ms.Sum('w')), **k), 'w c h', extra=['h', 'c'], cond=True,
  fns=['operations.Distribution', 'operations.AbsoluteChange'])
E('ops_arith', lambda ms, **k: ms.PercentChange('c', 'a', ms.Sum(
    'w')) - ms.PercentChange('c', 'a', ms.Mean('w')), 'w c', extra=['c'],
  cond=True, kw=False, fns=['operations.PercentChange',
                            'metrics.CompositeMetric'])
E('ops_list', lambda ms, **k: ms.MetricList([
    ms.PercentChange('c', 'a', ms.Sum('w')),
    ms.AbsoluteChange('c', 'a', ms.Mean('w'))], **k), 'w c', extra=['c'],
  cond=True, fns=['operations.PercentChange', 'metrics.MetricList'])

# ------------------------------------------------------------ diversity
E('hhi', lambda ms, **k: ms.HHI('h', ms.Sum('w')), 'w h', kw=False,
  fns=['diversity.HHI'])
E('hhi_list', lambda ms, **k: ms.HHI('h', ms.MetricList(
    [ms.Sum('w'), ms.Count('w')])), 'w h', kw=False, fns=['diversity.HHI'])
E('entropy', lambda ms, **k: ms.Entropy('h', ms.Sum('w')), 'w h', kw=False,
  fns=['diversity.Entropy'])
E('topk', lambda ms, **k: ms.TopK('h', 2, ms.Sum('w')), 'w h', kw=False,
  ded=False, fns=['diversity.TopK'])
E('nxx', lambda ms, **k: ms.Nxx('h', 0.6, ms.Sum('w')), 'w h', kw=False,
  ded=False, fns=['diversity.Nxx'])

# ------------------------------------------------------------ resampling
E('jackknife', lambda ms, **k: ms.Jackknife('u', ms.Sum('x'), **k), 'x u',
  unit=True, rows=(8, 20), fns=['operations.Jackknife'])
E('jackknife_mean', lambda ms, **k: ms.Jackknife('u', ms.Mean('x'), **k),
  'x u', unit=True, rows=(8, 20), fns=['operations.Jackknife'])
E('jackknife_slow', lambda ms, **k: ms.Jackknife(
    'u', ms.Mean('x'), enable_optimization=False, **k), 'x u', unit=True,
  rows=(8, 20), fns=['operations.Jackknife'])
E('jackknife_ci', lambda ms, **k: ms.Jackknife(
    'u', ms.Sum('x') / ms.Sum('w'), 0.9, **k), 'x w u', unit=True,
  rows=(8, 20), fns=['operations.Jackknife'])
E('jackknife_abs', lambda ms, **k: ms.Jackknife(
    'u', ms.AbsoluteChange('c', 'a', ms.Mean('x')), **k), 'x u c', unit=True,
  extra=['c'], cond=True, ded=False, rows=(14, 30),
  fns=['operations.Jackknife'])
E('jackknife_pct_ci', lambda ms, **k: ms.Jackknife(
    'u', ms.PercentChange('c', 'a', ms.MetricList(
        [ms.Sum('w'), ms.Mean('w')])), 0.95, **k), 'w u c', unit=True,
  extra=['c'], cond=True, ded=False, rows=(14, 30),
  fns=['operations.Jackknife'])
E('jackknife_max', lambda ms, **k: ms.Jackknife('u', ms.Max('x'), **k), 'x u',
  unit=True, ded=False, rows=(8, 20), fns=['operations.Jackknife'])
E('bootstrap', lambda ms, **k: ms.Bootstrap(None, ms.Mean('x'), 5, **k), 'x',
  rand=True, ded=False, sql='rand', rows=(6, 14),
  fns=['operations.Bootstrap'])
E('bootstrap_unit', lambda ms, **k: ms.Bootstrap('u', ms.Mean('x'), 5, **k),
  'x u', rand=True, ded=False, sql='rand', unit=True, rows=(8, 20),
  fns=['operations.Bootstrap'])
E('poisson', lambda ms, **k: ms.PoissonBootstrap('u', ms.Sum('x'), 5, **k),
  'x u', rand=True, ded=False, sql='rand', unit=True, rows=(8, 20),
  fns=['operations.PoissonBootstrap'])

# ------------------------------------------------------------ regressions
E('linreg', lambda ms, **k: ms.models.LinearRegression(
    ms.Sum('y'), [ms.Sum('x'), ms.Sum('w')], 'u', **k), 'x y w u', ded=False,
  rows=(20, 40), fns=['models.LinearRegression'])
E('linreg_nointercept', lambda ms, **k: ms.models.LinearRegression(
    ms.Mean('y'), ms.Mean('x'), 'u', fit_intercept=False, **k), 'x y u',
  ded=False, rows=(20, 40), fns=['models.LinearRegression'])
E('ridge', lambda ms, **k: ms.models.Ridge(
    ms.Sum('y'), [ms.Sum('x'), ms.Sum('w')], 'u', alpha=2, **k), 'x y w u',
  ded=False, rows=(20, 40), fns=['models.Ridge'])
E('lasso', lambda ms, **k: ms.models.Lasso(
    ms.Sum('y'), [ms.Sum('x'), ms.Sum('w')], 'u', alpha=0.5, **k), 'x y w u',
  ded=False, rows=(20, 40), fns=['models.Lasso'])
E('elasticnet', lambda ms, **k: ms.models.ElasticNet(
    ms.Sum('y'), [ms.Sum('x'), ms.Sum('w')], 'u', alpha=0.5, **k), 'x y w u',
  ded=False, rows=(20, 40), fns=['models.ElasticNet'])
E('prepost', lambda ms, **k: ms.PrePostChange(
    'c', 'a', ms.Sum('y'), [ms.Sum('w')], 'u', **k), 'y w c u', extra=['c'],
  cond=True, ded=False, rows=(24, 40), fns=['operations.PrePostChange'])
E('cuped', lambda ms, **k: ms.CUPED(
    'c', 'a', ms.Sum('y'), [ms.Sum('w')], 'u', **k), 'y w c u', extra=['c'],
  cond=True, ded=False, rows=(24, 40), fns=['operations.CUPED'])


def schema(e, *more):
  cols = list(e.cols) + [m for m in more if m not in e.cols]
  return {c: SCH[c] for c in cols}


KP = {'u': ['u1', 'u2', 'u3', 'u4', 'u5', 'u6', 'u7', 'u8']}


def table(e, rng, i, more=(), nulls=False, lo=None, hi=None, balanced=()):
  """Rows of a concrete table for entry e.

  balanced: columns whose labels all occur with (about) equal frequency.
  """
  sch = schema(e, *more)
  lo, hi = lo or e.rows[0], hi or e.rows[1]
  n = rng.randint(lo, hi)
  rows = []
  for j in range(n):
    r = {}
    for c, k in sch.items():
      if k == 'key':
        p = KP.get(c, O.KEYS)
        if e.rows[0] >= 20 and c in ('c', 'g', 'h'):
          p = p[:2]
        r[c] = p[j % len(p)] if c in balanced else rng.choice(p)
      elif k == 'pos':
        r[c] = rng.choice(O.POS)
      else:
        r[c] = rng.choice(O.NUMS)
        if nulls and rng.random() < 0.2:
          r[c] = None
    rows.append(r)
  if not e.ties or (e.rows[0] >= 20):
    for c in ('x', 'y', 'w'):
      if c in sch:
        v = rng.sample(range(1, 400), n)
        for r, z in zip(rows, v):
          r[c] = z / 16.0
  if e.cond:
    r = rng.choice(rows)
    r['c'] = 'a'
    if e.name == 'pct_multi':
      r['h'] = 'b'
  rng.shuffle(rows)
  return rows
