"""C07: computing leaves data and metrics as they are; building, too."""
import copy

import numpy as np
import pandas as pd

from engine import compare
from engine import obligation as O
from props import C05
from props import C06
from props import catalog as C
from props import trees as T

P = 'C07'
LEVEL = 'proof'
TECHNIQUE = ('contract-based deductive verification: frame conditions. For all '
             'tables, on symbolically executed real code discharged by z3, '
             'the data after a computation are the data before and a second '
             'computation, or one with a metric others were built from, has '
             'the value of a new metric; bounded suites for all classes of '
             'metrics and random programs that build and compute metrics')
NOTE = ('Proved for the metrics of the catalog; resampling, regressions and '
        'random programs are bounded.')
FNS = ['metrics.Metric.compute_on', 'metrics.Metric.compute_slices',
       'metrics.Metric.__or__', 'metrics.CompositeMetric',
       'metrics.MetricList', 'operations.Operation.__call__',
       'utils.add_auxiliary_cols', 'utils.push_filters_to_leaf']


# ------------------------------------------------------------------ bounded
def state(m, ms, sql=True):
  """What a user can see of a metric without computing it."""
  out = {'name': m.name, 'where': m.where, 'class': type(m).__name__,
         'children': tuple(state(c, ms, False) if isinstance(c, ms.Metric)
                           else repr(c) for c in m.children)}
  for k in ('var', 'columns', 'extra_split_by', 'extra_index', 'weight',
            'confidence', 'unit', 'stratified_by', 'n_replicates',
            'name_tmpl'):
    if hasattr(m, k):
      out[k] = repr(getattr(m, k))
  if sql:
    out['sql'] = O.run_impl(lambda: str(m.to_sql('T', ['g'])))
    if isinstance(out['sql'], compare.Raised):
      out['sql'] = None
  return out


def changed(a, b):
  return next(('%s was %r, is %r' % (k, a[k], b.get(k)) for k in a
               if a[k] != b.get(k)), None)


def same_frame(what, a, b, case):
  d = None
  if list(a.columns) != list(b.columns):
    d = 'columns %s, were %s' % (list(b.columns), list(a.columns))
  elif not a.index.identical(b.index):
    d = 'index %s, was %s' % (b.index[:8], a.index[:8])
  elif list(a.dtypes) != list(b.dtypes):
    d = 'dtypes %s, were %s' % (list(b.dtypes), list(a.dtypes))
  elif a.attrs != b.attrs or a.columns.names != b.columns.names:
    d = 'attributes %s, were %s' % (b.attrs, a.attrs)
  elif not a.equals(b):
    d = 'values changed'
  if d:
    raise O.Mismatch('%s: the data passed in have %s' % (what, d), case)


def variant(rng, df):
  """The same data in the shapes in which users have them."""
  k = rng.randrange(7)
  if k == 1:
    df = df.set_axis(rng.sample(range(100), len(df)))
  elif k == 2:
    df = df.set_axis([rng.choice('pq') for _ in range(len(df))])
  elif k == 3:
    df = pd.concat([df, df]).iloc[:len(df)]
  elif k == 4:
    df = df.astype({c: 'category' for c in 'ghcs' if c in df})
  elif k == 5:
    df = df.assign(z=0, total=1.)[['total'] + list(df.columns)[::-1] + ['z']]
  elif k == 6:
    df = df.rename_axis('g2')
    df.attrs['a'] = 1
  return df, k


def seeded(fn, *a, **k):
  np.random.seed(11)
  return C05.quiet(fn, *a, **k)


@O.suite('C07.classes', P, FNS, len(C06.LABELS), 8 * len(C06.LABELS))
def classes(ms, rng, i):
  """Every metric of the matrix of C06: data, definition and repetition."""
  p = C06.LABELS[i % len(C06.LABELS)]
  rows = C06.table(rng)
  df, shape = variant(rng, O.to_df(C06.SCHEMA, rows))
  by = rng.choice([[], ['g']])
  other = O.to_df(C06.SCHEMA, C06.table(rng))
  case = {'metric': p, 'by': by, 'rows': rows, 'shape': shape}
  m = C06.V[p](ms)
  before, copy_df = state(m, ms), df.copy()
  copy_df.attrs = dict(df.attrs)
  want = seeded(C06.V[p](ms).compute_on, df.copy(), by)
  first = seeded(m.compute_on, df, by)
  C05.same('%s' % p, first, want, case)
  same_frame(p, copy_df, df, case)
  steps = []
  for _ in range(rng.randint(1, 3)):
    k = rng.randrange(6)
    steps.append(k)
    if k == 0:
      seeded(m.compute_on, other, [] if by else ['g'])
    elif k == 1:
      seeded(m.compute_on, df.drop(columns=['w', 'y']), by)
    elif k == 2:
      seeded(m.compute_on, df, by, melted=True)
    elif k == 3:
      seeded(m.compute_on, df, by, cache_key='k')
    elif k == 4:
      C05.quiet(lambda: str(m.to_sql('T', by)))
    else:
      C05.quiet(lambda: ms.utils.get_fully_expanded_equivalent_metric_tree(
          m, df))
    same_frame('%s, steps %s' % (p, steps), copy_df, df, case)
  d = changed(before, state(m, ms))
  if d:
    raise O.Mismatch('%s after computing: %s' % (p, d), dict(
        case, steps=steps))
  if not m == C06.V[p](ms):
    raise O.Mismatch('%s after computing is not equal to a new one' % p, dict(
        case, steps=steps))
  C05.same('%s computed again after %s' % (p, steps),
           seeded(m.compute_on, df, by), want, dict(case, steps=steps))
  return (shape, len(by))


OPS = {
    'pct': (lambda ms: ms.PercentChange('c', 'a'), 'c'),
    'abs': (lambda ms: ms.AbsoluteChange('c', 'a', include_base=True), 'c'),
    'dist': (lambda ms: ms.Distribution('h'), 'h'),
    'cum': (lambda ms: ms.CumulativeDistribution('h'), 'h'),
    'jk': (lambda ms: ms.Jackknife('u'), 'jk'),
    'jkc': (lambda ms: ms.Jackknife('u', confidence=.9), 'jkc'),
    'bs': (lambda ms: ms.Bootstrap('u', None, 3), 'bs'),
    'hhi': (lambda ms: ms.HHI('h'), ''),
    'where': (lambda ms: ms.Distribution('h', where='y > 0'), 'h'),
    'mh': (lambda ms: ms.MH('c', 'a', 's'), 'c'),
}


@O.suite('C07.programs', P, FNS, 240, 5000)
def programs(ms, rng, i):
  """Programs that build metrics from others, and compute some of them."""
  rows = T.table(rng, 8, 14)
  df = O.to_df(T.SCHEMA, rows)
  pool = []     # (metric, rebuild(): metric, kind, state, description)
  ops = {}      # operations without child, used again and again
  log = []
  case = {'rows': rows, 'program': log}

  def add(m, rebuild, kind, text):
    pool.append((m, rebuild, kind, state(m, ms), text))
    log.append('m%d = %s' % (len(pool) - 1, text))

  for _ in range(2):
    t = T.leaf(rng)
    add(T.build(ms, t), lambda t=t: T.build(ms, t), '', repr(t))
  if rng.random() < .5:
    t = ('leaf', 'Ratio', ('x', 'w'), {})
    add(T.build(ms, t), lambda t=t: T.build(ms, t), '', repr(t))
  n = rng.randint(4, 9)
  for step in range(n):
    r = rng.random()
    flat = [k for k, z in enumerate(pool) if z[2] == '']
    if r < .25:
      a, b = rng.choice(flat), rng.choice(flat)
      sign = rng.choice('+-*/')
      if rng.random() < .2:
        f = lambda x, y, s=sign: {'+': lambda: 2 + x, '-': lambda: x - 2,
                                  '*': lambda: x * 2, '/': lambda: 2 / x}[s]()
      else:
        f = lambda x, y, s=sign: {'+': lambda: x + y, '-': lambda: x - y,
                                  '*': lambda: x * y, '/': lambda: x / y}[s]()
      add(f(pool[a][0], pool[b][0]),
          lambda f=f, a=pool[a][1], b=pool[b][1]: f(a(), b()), '',
          'm%d %s m%d' % (a, sign, b))
    elif r < .4:
      ks = [rng.choice(flat) for _ in range(rng.randint(1, 3))]
      kw = T.where(rng) if rng.random() < .5 else {}
      add(ms.MetricList([pool[k][0] for k in ks], **kw),
          lambda ks=[pool[k][1] for k in ks], kw=kw: ms.MetricList(
              [k() for k in ks], **kw), 'list', 'MetricList(%s, %s)' % (ks, kw))
    elif r < .75:
      o = rng.choice(sorted(OPS))
      make, kind = OPS[o]
      ok = flat + ([k for k, z in enumerate(pool) if z[2] == 'list']
                   if o not in ('mh',) else [])
      if o in ('jk', 'jkc', 'bs'):
        ok += [k for k, z in enumerate(pool) if z[2] in ('c', 'h')]
      if o == 'mh':
        ok = [k for k in flat if pool[k][4].startswith("('leaf', 'Ratio'")]
      if not ok:
        continue
      k = rng.choice(ok)
      if o not in ops or rng.random() < .2:
        ops[o] = make(ms)
      s = state(ops[o], ms, False)
      how = rng.random() < .5
      m = pool[k][0] | ops[o] if how else ops[o](pool[k][0])
      d = changed(s, state(ops[o], ms, False))
      log.append('%s applied to m%d' % (o, k))
      if d:
        raise O.Mismatch('applying an operation changed it: %s' % d, case)
      add(m, lambda make=make, k=pool[k][1]: make(ms)(k()),
          kind if o != 'hhi' or pool[k][2] == '' else 'list',
          'm%d | %s' % (k, o))
    elif r < .9:
      k = rng.randrange(len(pool))
      by = rng.choice([[], ['g']])
      kw = rng.choice([{}, {'melted': True}, {'cache_key': 'k'}])
      log.append('m%d.compute_on(df, %s, %s)' % (k, by, kw))
      seeded(pool[k][0].compute_on, df, by, **kw)
    elif r < .93:
      k = rng.randrange(len(pool))
      log.append('m%d.to_sql' % k)
      C05.quiet(lambda: str(pool[k][0].to_sql('T', ['g'])))
    elif r < .96:
      k = rng.randrange(len(pool))
      log.append('expand m%d' % k)
      C05.quiet(lambda: ms.utils.get_fully_expanded_equivalent_metric_tree(
          pool[k][0], df))
    else:
      k = rng.randrange(len(pool))
      m = copy.deepcopy(pool[k][0])
      add(m, pool[k][1], pool[k][2], 'deepcopy(m%d)' % k)
  by = rng.choice([[], ['g']])
  clean = O.to_df(T.SCHEMA, rows)
  same_frame('after a program', clean, df, case)
  for k, (m, rebuild, _, s, text) in enumerate(pool):
    d = changed(s, state(m, ms))
    if d:
      raise O.Mismatch('m%d after the program: %s' % (k, d), case)
    C05.same('m%d = %s after the program' % (k, text),
             seeded(m.compute_on, df, by),
             seeded(rebuild().compute_on, clean, by), case)
  same_frame('after a program', clean, df, case)
  return (len(pool), len(by))


@O.suite('C07.trees', P, FNS, 150, 3000)
def trees(ms, rng, i):
  """Random trees, computed and computed again."""
  t = T.tree(rng, rng.choice(['', 'h', 'c']))
  rows = T.table(rng)
  df, shape = variant(rng, O.to_df(T.SCHEMA, rows))
  by = C05.by_for(rng, '', t)
  case = {'tree': t, 'by': by, 'rows': rows, 'shape': shape}
  m = T.build(ms, t, {})
  before, kept = state(m, ms), df.copy()
  kept.attrs = dict(df.attrs)
  a = seeded(m.compute_on, df, by)
  b = seeded(m.compute_on, df, by)
  C05.same('computed again', b, a, case)
  C05.same('computed', a, seeded(T.build(ms, t).compute_on, kept.copy(), by),
           case)
  same_frame('computing', kept, df, case)
  d = changed(before, state(m, ms))
  if d:
    raise O.Mismatch('the metric after computing: %s' % d, case)
  return (shape, len(by))


MODELS = {
    'lm': lambda ms: ms.models.LinearRegression(
        ms.Sum('y'), [ms.Sum('x'), ms.Sum('w')], 'u'),
    'ridge': lambda ms: ms.models.Ridge(
        ms.Sum('y'), [ms.Sum('x'), ms.Sum('w')], 'u', alpha=2),
    'lasso': lambda ms: ms.models.Lasso(
        ms.Sum('y'), [ms.Sum('x')], 'u', alpha=.1),
    'elastic': lambda ms: ms.models.ElasticNet(
        ms.Sum('y'), [ms.Sum('x')], 'u', alpha=.1, normalize=True),
    'logit': lambda ms: ms.models.LogisticRegression(
        ms.Max('b'), [ms.Sum('x'), ms.Sum('w')], 'u'),
    'jk lm': lambda ms: ms.Jackknife('s', ms.models.LinearRegression(
        ms.Sum('y'), [ms.Sum('x')], 'u')),
    'bs lm': lambda ms: ms.Bootstrap('u', ms.models.LinearRegression(
        ms.Sum('y'), [ms.Sum('x')], 'u'), 3),
    'cuped': lambda ms: ms.CUPED(
        'c', 'a', ms.Sum('y'), [ms.Sum('x'), ms.Sum('w')], 'u'),
    'prepost': lambda ms: ms.PrePostChange(
        'c', 'a', ms.MetricList([ms.Sum('y'), ms.Sum('w')]), [ms.Sum('x')],
        'u'),
    'jk prepost': lambda ms: ms.Jackknife('u2', ms.PrePostChange(
        'c', 'a', ms.Sum('y'), [ms.Sum('x')], 'u')),
    'jk cuped': lambda ms: ms.Jackknife('u2', ms.CUPED(
        'c', 'a', ms.Sum('y'), [ms.Sum('x')], 'u'), .9),
    'bs pct': lambda ms: ms.Bootstrap('u', ms.PercentChange(
        'c', 'a', ms.MetricList([ms.Sum('x'), ms.Mean('w')])), 4, .9),
    'pbs': lambda ms: ms.PoissonBootstrap('u', ms.Ratio('x', 'w'), 4),
    'mh jk': lambda ms: ms.Jackknife('u', ms.MH(
        'c', 'a', 's', ms.Ratio('x', 'w'))),
    'topk': lambda ms: ms.TopK('h', 2, ms.Sum('w')),
    'nxx': lambda ms: ms.Nxx('h', .6, ms.Sum('w')),
}


@O.suite('C07.models', P, FNS, 2 * len(MODELS), 20 * len(MODELS))
def models(ms, rng, i):
  """Regressions, adjusted comparisons and resamples of them."""
  p = sorted(MODELS)[i % len(MODELS)]
  rows = C06.table(rng, 48)
  for r in rows:
    r['b'] = rng.choice([0., 1.])
    r['u'] = 'u%d' % rng.randint(1, 12)
    r['u2'] = 'v' + r['u'][1:]
  df, shape = variant(rng, O.to_df(dict(C06.SCHEMA, b='num', u2='key'), rows))
  by = rng.choice([[], ['g']])
  case = {'metric': p, 'by': by, 'rows': rows, 'shape': shape}
  m = MODELS[p](ms)
  before, kept = state(m, ms, p != 'logit'), df.copy()
  kept.attrs = dict(df.attrs)
  a = seeded(m.compute_on, df, by)
  same_frame(p, kept, df, case)
  seeded(m.compute_on, df.iloc[::2], [])
  C05.same('%s computed again' % p, seeded(m.compute_on, df, by), a, case)
  C05.same(p, a, seeded(MODELS[p](ms).compute_on, kept.copy(), by), case)
  same_frame(p, kept, df, case)
  d = changed(before, state(m, ms, p != 'logit'))
  if d:
    raise O.Mismatch('%s after computing: %s' % (p, d), case)
  return (shape, len(by))


@O.suite('C07.sql', P, FNS + ['metrics.Metric.compute_on_sql'], 100, 1500)
def on_sql(ms, rng, i):
  """Computing on SQL, twice, with other computations in between."""
  from props import C13
  from props import sqlcat as Q
  pool = sorted(Q.TREES) + sorted(n for n, e in C.CAT.items()
                                  if e.sql is True and not e.rand)
  n = pool[rng.randrange(len(pool))]
  e = Q.TREES.get(n) or C.CAT[n]
  t = Q.Tree(n, e.build, e.cond, e.rows)
  by = [b for b in rng.choice(Q.BY) if b not in getattr(e, 'extra', ())]
  rows = Q.table(t, rng, i, by)
  df = O.to_df(Q.SCHEMA, rows)
  case = {'metric': n, 'by': by, 'rows': rows}
  m, mode = e.build(ms), rng.choice([None, 'mixed'])
  before, kept = state(m, ms), df.copy()

  def compute(m):
    return seeded(m.compute_on_sql, 'T', by, execute=C13.Exec(df), mode=mode)
  want = compute(e.build(ms))
  if isinstance(want, compare.Raised):
    return 'outside'
  C05.same(n + ' on SQL', compute(m), want, case)
  steps = [rng.randrange(4) for _ in range(rng.randint(0, 2))]
  for k in steps:
    if k == 0:
      seeded(m.compute_on, df, by)
    elif k == 1:
      seeded(m.compute_on_sql, 'SELECT * FROM T WHERE w > 1',
             execute=C13.Exec(df), melted=True)
    elif k == 2:
      seeded(m.compute_on_sql, 'T', ['nope'], execute=C13.Exec(df))
    else:
      seeded(m.compute_on_sql, 'T', by, execute=C13.Exec(df),
             mode=None if mode else 'mixed', cache_key='k')
  d = changed(before, state(m, ms))
  if d:
    raise O.Mismatch('%s after computing on SQL: %s' % (n, d), case)
  C05.same('%s on SQL again after %s' % (n, steps), compute(m), want, case)
  same_frame(n, kept, df, case)
  C05.same('%s on the data after SQL' % n, seeded(m.compute_on, df, by),
           seeded(e.build(ms).compute_on, df, by), case)
  return (mode, len(by))


def sources(ms, rng):
  """Data sources given as query objects: (kind, function building one)."""
  q = ms.sql
  star = lambda: q.Column('*', auto_alias=False)
  cte = lambda n='Src': q.Datasources([
      q.Datasource(q.Sql(star(), 'T', 'w > 0'), n)])
  return rng.choice([
      ('query', lambda: q.Sql(star(), 'T', 'w > 0')),
      ('no columns', lambda: q.Sql(None, 'T', 'w > 0')),
      ('with', lambda: q.Sql(star(), 'Src', with_data=cte())),
      ('with, no columns', lambda: q.Sql(None, 'Src', with_data=cte())),
      ('with, filter', lambda: q.Sql(star(), 'Src', 'x < 100',
                                     with_data=cte())),
      ('with named as ours', lambda: q.Sql(star(), 'Data',
                                           with_data=cte('Data'))),
  ])


@O.suite('C07.query_source', P, ['metrics.Metric.to_sql',
                                 'metrics.Metric.compute_on_sql', 'sql.Sql'],
         60, 900)
def query_source(ms, rng, i):
  """The data source is a query object: it stays as it was."""
  from props import C13
  from props import sqlcat as Q
  pool = sorted(Q.TREES) + sorted(n for n, e in C.CAT.items()
                                  if e.sql is True and not e.rand)
  n = pool[rng.randrange(len(pool))]
  e = Q.TREES.get(n) or C.CAT[n]
  t = Q.Tree(n, e.build, e.cond, e.rows)
  by = [b for b in rng.choice(Q.BY) if b not in getattr(e, 'extra', ())]
  rows = Q.table(t, rng, i, by)
  for r in rows:
    if r['w'] is None or r['w'] <= 0:
      r['w'] = 1.
  df = O.to_df(Q.SCHEMA, rows)
  kind, build = sources(ms, rng)
  mode = rng.choice([None, 'mixed', None])
  case = {'metric': n, 'by': by, 'rows': rows, 'source': kind, 'mode': mode}
  table = build()
  text = str(table)
  m = e.build(ms)

  def compute(table):
    return seeded(m.compute_on_sql, table, by, execute=C13.Exec(df), mode=mode)

  def kept(what):
    if str(table) != text:
      raise O.Mismatch('%s: the query given as data source changed after %s: '
                       '%s' % (n, what, str(table)[:200]), case)
  try:
    m.to_sql(table, by)
  except NotImplementedError:
    pass
  kept('to_sql')
  a = compute(table)
  kept('computing')
  want = compute('T')
  if isinstance(want, compare.Raised) and isinstance(a, compare.Raised):
    return 'outside'
  C05.same('%s again on the query' % n, compute(table), a, case)
  kept('computing again')
  if kind != 'with, filter':
    C05.same('%s on the query' % n, a, want, case)
  return (kind, mode, len(by))


# ------------------------------------------------------------- obligations
def probes(ms, df, cols):
  out = []
  for c in cols:
    out.append(ms.Sum(c).compute_on(df) if C.SCH[c] != 'key' else
               ms.Count(c, distinct=True).compute_on(df))
    if c != 'g':
      out.append(ms.Count(c).compute_on(df, 'g'))
  return out


def twice(e, by, cols):
  def f(ms, df):
    labels = list(df.columns)
    m = e.build(ms)
    name, where, str_ = m.name, m.where, str(m)
    kids = m.children
    out = [m.compute_on(df, by), m.compute_on(df, by)]
    if list(df.columns) != labels:
      raise AssertionError('columns of the data changed')
    if (m.name, m.where, str(m)) != (name, where, str_) or len(
        m.children) != len(kids) or any(
            a is not b for a, b in zip(kids, m.children)):
      raise AssertionError('the metric changed')
    return out + probes(ms, df, cols)
  return f


def once(e, by, cols):
  def f(ms, df):
    a = probes(ms, df, cols)
    return [e.build(ms).compute_on(df, by)] * 2 + a
  return f


for _e in C.CAT.values():
  if not _e.ded or "jackknife" in _e.name:
    continue
  for _by in ([], ['g']):
    if _by and 'g' in _e.cols:
      continue
    _s = {c: C.SCH[c] for c in _e.cols + ([] if 'g' in _e.cols else ['g'])}
    O.Obligation('C07.twice.%s.%s' % (_e.name, ''.join(_by) or 'all'), P,
                 FNS + _e.fns, _s, twice(_e, _by, list(_s)),
                 spec2=once(_e, _by, list(_s)), needs=C05.needs([_e], _by),
                 gen=C05.gen(_e, _e, ['g']), n=4, may_raise=KeyError)

# Metrics built from others.
BUILT = {
    'arith': (lambda ms, a, b: a / b + 1, ''),
    'list': (lambda ms, a, b: ms.MetricList([a, b], where='w > 1'), ''),
    'dist': (lambda ms, a, b: a | ms.Distribution('h'), 'h'),
    'pct': (lambda ms, a, b: ms.MetricList([b, a]) | ms.PercentChange(
        'c', 'a'), 'c'),
    'where': (lambda ms, a, b: ms.Distribution('h', a, where='w > 1'), 'h'),
    'abs': (lambda ms, a, b: ms.AbsoluteChange('c', 'a', a - b), 'c'),
    'hhi': (lambda ms, a, b: ms.HHI('h', b), ''),
}
PARTS = {'sum': lambda ms: ms.Sum('x'), 'mean': lambda ms: ms.Mean('w'),
         'var': lambda ms: ms.Variance('x'), 'wmean': lambda ms: ms.Mean(
             'x', 'w'), 'sumf': lambda ms: ms.Sum('x', where='w > 2'),
         'count': lambda ms: ms.Count('w'), 'ratio': lambda ms: ms.Ratio(
             'x', 'w')}
SCHEMA = {'x': 'num', 'w': 'pos', 'h': 'key', 'c': 'key', 'g': 'key'}


def built(k, pa, pb, by, apart):
  make = BUILT[k][0]
  def f(ms, df):
    a, b = PARTS[pa](ms), PARTS[pb](ms)
    if apart:
      x = make(ms, PARTS[pa](ms), PARTS[pb](ms))
      return [x.compute_on(df, by)] + [m.compute_on(df, by) for m in (a, b)]
    m = make(ms, a, b)
    x = m.compute_on(df, by)
    return [x, a.compute_on(df, by), b.compute_on(df, by)]
  return f


_n = 0
for _k in BUILT:
  for _a in PARTS:
    for _b in PARTS:
      if _a == _b:
        continue
      _n += 1
      for _by in ([], ['g']):
        O.Obligation(
            'C07.built.%s.%s+%s.%s' % (_k, _a, _b, ''.join(_by) or 'all'), P,
            FNS, SCHEMA, built(_k, _a, _b, _by, False),
            spec2=built(_k, _a, _b, _by, True), gen=lambda rng, i: [
                {c: r[c] for c in SCHEMA} for r in T.table(
                    rng, 5, 12, nulls=False)], n=3, may_raise=KeyError,
            needs=[lambda rows: rows.at(c='a').exists()],
            tier='quick' if _n % 6 == 0 else 'thorough')
