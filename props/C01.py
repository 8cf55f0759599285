"""C01: splitting a computation equals computing every slice on its own."""
from engine import compare
from engine import obligation as O
from engine import spec as S
from props import catalog as C
from props import sqlalso

P = 'C01'
LEVEL = 'proof'
TECHNIQUE = ('contract-based deductive verification: relational obligations '
             '(the split result at a generic slice against the unsplit result '
             'on the rows of that slice) on symbolically executed real code, '
             'discharged by z3; bounded relational suites for the metrics '
             'outside the contracts')
NOTE = ('Slices are taken at literal labels; the code treats split labels '
        'uniformly, so the label stands for any. Quantile lists, weighted '
        'quantiles, Nth, TopK, Nxx, models, PrePost/CUPED are bounded only.')
FNS = ['metrics.Metric.compute_on', 'metrics.Metric.compute_through',
       'metrics.Metric.compute', 'metrics.Metric.group']


def at(ms, res, by, labels):
  """Rows of the result in the slice, without the split levels."""
  extra = [n for n in res.index.names if n not in by]
  for c, l in zip(by, labels):
    if len(res.index.names) > 1:
      res = res.xs(l, level=c)
    else:
      return [res.xs(l)]
  return [res]


def whole(res, extra):
  if extra:
    return [res]
  return [res.iloc[0]]


OPTS = {'labels': False}


def sub(df, by, labels):
  for c, l in zip(by, labels):
    df = df[df[c] == l]
  return df


def needs(by, labels, e):
  out = [lambda rows: rows.at(**dict(zip(by, labels))).exists()]
  if e.cond:
    base = {'c': 'a'}
    if e.name == 'pct_multi':
      base['h'] = 'b'
    out.append(lambda rows: rows.at(**dict(zip(by, labels))).at(
        **base).exists())
    # the slice has a condition besides the baseline, hence result rows
    out.append(lambda rows: rows.at(**dict(zip(by, labels))).where(
        lambda r: ~S.all_of(*[r[c] == v for c, v in base.items()])).exists())
  if e.name == 'cumdist_order':
    out.append(lambda rows: rows.at(**dict(zip(by, labels))).where(
        lambda r: r['h'] == 'b').exists())
  for f in e.filters:
    out.append(lambda rows, f=f: rows.at(**dict(zip(by, labels))).where(
        f).exists())
  return out


def gen(e, by, labels):
  def f(rng, i):
    rows = C.table(e, rng, i, by)
    hit = [r for r in rows if all(r[c] == l for c, l in zip(by, labels))]
    if not hit:
      r = rng.choice(rows)
      for c, l in zip(by, labels):
        r[c] = l
      hit = [r]
    if e.cond:
      r = rng.choice(hit)
      r['c'] = 'a'
      if e.name == 'pct_multi':
        r['h'] = 'b'
    return rows
  return f


for name, e in C.CAT.items():
  if not e.ded or e.unit:
    continue
  for by, labels in ((['g'], ['a']), (['g', 's'], ['a', 'b'])):
    if set(by) & set(e.cols):
      continue
    O.Obligation(
        'C01.%s.%s' % (name, ''.join(by)), P, FNS + e.fns, C.schema(e, *by),
        lambda ms, df, e=e, by=by, labels=labels: at(
            ms, e.build(ms).compute_on(df, by), by, labels),
        spec2=lambda ms, df, e=e, by=by, labels=labels: whole(
            e.build(ms).compute_on(sub(df, by, labels)), e.extra),
        needs=needs(by, labels, e), gen=gen(e, by, labels), opts=OPTS, n=6)


# ------------------------------------------------------------ bounded
def values(res, drop):
  """{(labels, column): value} of a result without the levels in drop."""
  import pandas as pd
  if isinstance(res, (int, float)):
    res = pd.DataFrame([res])
  out = {}
  names = list(res.index.names)
  keep = [i for i, n in enumerate(names) if n is not None and n not in drop]
  for k, row in zip(res.index, res.itertuples(index=False)):
    k = k if isinstance(k, tuple) else (k,)
    for c, v in zip(res.columns, row):
      key = (tuple(k[i] for i in keep), str(c))
      out.setdefault(key, []).append(None if v != v or v is None else float(v))
  return out


def compare_values(a, b, tol=1e-6):
  # a row that is absent is a missing value
  a = {k: v for k, v in a.items() if k in b or any(
      x is not None for x in v)}
  for k, v in b.items():
    if k not in a and all(x is None for x in v):
      a[k] = v
  if set(a) != set(b):
    return 'rows/columns %s, expected %s' % (sorted(a, key=str)[:12],
                                             sorted(b, key=str)[:12])
  for k in a:
    if len(a[k]) != len(b[k]) or not all(
        compare.close(x, y, tol) for x, y in zip(a[k], b[k])):
      return 'value at %s is %s, expected %s' % (k, a[k], b[k])
  return None


def slices_agree(ms, e, rows, by, m):
  import itertools
  df = O.to_df(C.schema(e, *by), rows)
  res = m.compute_on(df, by)
  n = 0
  for labs in itertools.product(*[sorted(set(r[c] for r in rows))
                                  for c in by]):
    part = sub(df, by, labs)
    if not len(part):
      continue
    pos = [res.index.names.index(c) for c in by]
    mask = [all((k if isinstance(k, tuple) else (k,))[p] == l
                for p, l in zip(pos, labs)) for k in res.index]
    got = values(res[mask], by)
    mine = [r for r in rows if all(r[c] == l for c, l in zip(by, labs))]
    if e.cond and not any(r['c'] == 'a' and (
        e.name != 'pct_multi' or r['h'] == 'b') for r in mine):
      continue
    if not all(any(
        r['y'] is not None and f(r) for r in mine) for f in e.filters):
      continue  # a part has no rows here after its own filter
    try:
      want = values(m.compute_on(part), [])
    except Exception:  # pylint: disable=broad-except
      # a slice on which the metric alone is undefined (too few rows)
      continue
    d = compare_values(got, want)
    if d:
      raise O.Mismatch('%s split by %s, slice %s: %s' % (e.name, by, labs, d),
                       {'rows': rows})
    n += 1
  if isinstance(res, type(df)) and len(set(res.index.droplevel(
      [x for x in res.index.names if x not in by]))) > len(
          df.groupby(by)) if len(res.index.names) > len(by) else len(
              res) > len(df.groupby(by)):
    raise O.Mismatch('%s: slices without rows in the result' % e.name,
                     {'rows': rows})
  return n


for name, e in C.CAT.items():
  if e.rand:
    continue

  def run(ms, rng, i, e=e):
    by = [['g'], ['s'], ['g', 's']][i % 3]
    by = [c for c in by if c not in e.cols] or ['g']
    mul = 2 if len(by) > 1 or e.rows[0] >= 20 else 1
    rows = C.table(e, rng, i, by, bool(i % 2) and e.rows[0] < 20,
                   e.rows[0] * mul, e.rows[1] * mul)
    n = slices_agree(ms, e, rows, by, e.build(ms))
    return (e.name, tuple(by), n) if n else None

  O.Suite('C01.slices.' + name, P, FNS + e.fns, run, 8 if e.ded else 16,
          what='every slice of the split result equals the metric on the rows '
          'of that slice (%s)' % name)


# ------------------------------------------------- the same on SQL
sqlalso.also(P, sorted(C.CAT), sqlalso.trees('where_*', 'list_*', 'pct_where*',
                                           'dist_*', 'jk_*'), prove=False,
             modes=(None,))


# ------------------------------------- kinds of split columns and labels
def _dates(l):
  import pandas as pd
  return pd.Timestamp('2024-01-0%d' % (1 + 'abcdefgh'.index(l)))


LABELS = [
    ('numbers', lambda l: 'abcdefgh'.index(l)),
    ('floats', lambda l: 'abcdefgh'.index(l) / 2 - .5),
    ('empty string', lambda l: '' if l == 'a' else l),
    ('dates', _dates),
]


def relabel(df, by, f):
  df = df.copy()
  for c in by:
    df[c] = [f(l) for l in df[c]]
  return df


def categorical(df, cols):
  """Categorical columns with labels that no row has."""
  import pandas as pd
  df = df.copy()
  for c in cols:
    cats = ['A0'] + sorted(set(df[c])) + ['zz']
    df[c] = pd.Categorical(df[c], cats)
  return df


def mapped(vals, f):
  return {(tuple(k if k is None else f(k) for k in ks), c): v
          for (ks, c), v in vals.items()}


for name, e in C.CAT.items():
  if e.rand:
    continue

  def run_labels(ms, rng, i, e=e):
    by = [['g'], ['g', 's']][i // 2 % 2]
    by = [c for c in by if c not in e.cols] or ['s']
    if i % 2 and rng.random() < .3 and 'key' in C.schema(e).values():
      by = []  # a categorical column of the metric itself
    rows = C.table(e, rng, i, by, False, e.rows[0], e.rows[1])
    df = O.to_df(C.schema(e, *by), rows)
    m = e.build(ms)
    try:
      want = m.compute_on(df, by)
    except Exception:  # pylint: disable=broad-except
      return None  # undefined on this table
    names = [n for n in want.index.names if n is not None]
    pos = [names.index(c) for c in by]
    extra = [j for j, n in enumerate(names) if n not in by]

    def vals(r, f=lambda l: l):
      # {(labels of the split, other labels, column): values}
      d = values(r, [])
      return {(tuple(f(k[p]) for p in pos), tuple(k[p] for p in extra), c): v
              for (k, c), v in d.items()}
    if i % 2:
      kind = 'categorical'
      keys = [c for c, k in C.schema(e, *by).items() if k == 'key']
      cols = by if by and rng.random() < .5 else keys
      got = vals(m.compute_on(categorical(df, cols), by))
      ref = vals(want)
      bad = [k for k in got if set(k[0] + k[1]) & {'A0', 'zz'}]
      if bad:
        raise O.Mismatch('%s split by %s: rows for labels that no row has: '
                         '%s' % (e.name, by, bad[:6]), {'rows': rows})
    else:
      kind, f = LABELS[i // 2 % len(LABELS)]
      got = vals(m.compute_on(relabel(df, by, f), by))
      ref = vals(want, f)
    d = compare_values(got, ref)
    if d:
      raise O.Mismatch('%s split by %s (%s labels): %s' % (
          e.name, by, kind, d), {'rows': rows, 'kind': kind})
    return (e.name, tuple(by), kind)

  O.Suite('C01.labels.' + name, P, FNS + e.fns, run_labels,
          12 if e.rows[0] < 20 else 4,
          what='the values per slice do not depend on the kind of labels of '
          'the split columns (numbers, dates, categories without '
          'rows) (%s)' % name)


# -------------------------------- metrics that users write, slice by slice
def custom(ms, kind):
  """Metrics that only implement compute(), the documented way to write one."""
  import pandas as pd
  Sum, Mean = ms.Sum, ms.Mean

  class Spread(ms.Metric):

    def __init__(self):
      super(Spread, self).__init__('spread')

    def compute(self, df):
      return df.x.max() - df.x.min() + len(df)

  class Table(ms.Metric):

    def __init__(self):
      super(Table, self).__init__('table')

    def compute(self, df):
      return pd.DataFrame({'lo': [df.x.min()], 'hi': [df.x.max()]})

  class Cached(ms.Metric):
    """Reads the child through the cache, on the slice."""

    def __init__(self, *children):
      super(Cached, self).__init__('cached', children)

    def compute(self, df):
      v = [self.compute_util_metric_on(c, df, None, return_dataframe=False)
           for c in self.children]
      return v[0] + 3 * v[-1]

  class PerGroup(ms.Operation):
    """An operation whose compute() sees the child's rows of one slice."""

    def __init__(self, over, child=None):
      super(PerGroup, self).__init__(child, 'share of {}', over)

    def compute(self, res):
      return res / (res.abs().max() + 1)

  return {
      'number': Spread,
      'table': Table,
      'cached': lambda: Cached(Sum('x')),
      'cached_two': lambda: Cached(Sum('x'), Mean('x', where='y > 0')),
      'cached_list': lambda: ms.MetricList([Cached(Sum('x')), Sum('x')]),
      'operation': lambda: PerGroup('h', Sum('x')),
      'nested': lambda: PerGroup('h', Cached(Sum('x'))),
      'arith': lambda: Cached(Sum('x')) / Spread(),
  }[kind]()


CUSTOM = ['number', 'table', 'cached', 'cached_two', 'cached_list',
          'operation', 'nested', 'arith']


@O.suite('C01.custom', P, ['metrics.Metric.compute_slices',
                           'metrics.Metric.split_data',
                           'metrics.Metric.compute_on_children',
                           'metrics.Metric.compute_util_metric_on',
                           'operations.Operation.split_data'], 48,
         what='metrics written by users (compute() on one slice; children '
         'through the cache) give every slice its own value')
def run_custom(ms, rng, i):
  kind = CUSTOM[i % len(CUSTOM)]
  by = [['g'], ['g', 's'], ['s', 'g']][i // len(CUSTOM) % 3]
  rows = [{'x': rng.choice(O.NUMS), 'y': rng.choice([0., 1., 2.]),
           'g': rng.choice('ab'), 's': rng.choice('ab'),
           'h': rng.choice('abc')} for _ in range(rng.randint(6, 12))]
  for a in 'ab':  # y > 0 in every slice
    for b in 'ab':
      rows.append({'x': rng.choice(O.NUMS), 'y': 1., 'g': a, 's': b, 'h': 'a'})
  df = O.to_df({'x': 'num', 'y': 'num', 'g': 'key', 's': 'key', 'h': 'key'},
               rows)
  f = LABELS[rng.randrange(len(LABELS))][1]
  df = relabel(df, by, f)
  m = custom(ms, kind)
  res = m.compute_on(df, by)
  n = 0
  for labs in sorted(set(df[by].itertuples(index=False, name=None)), key=str):
    part = sub(df, by, labs)
    pos = [res.index.names.index(c) for c in by]
    mask = [all((k if isinstance(k, tuple) else (k,))[p] == l
                for p, l in zip(pos, labs)) for k in res.index]
    d = compare_values(values(res[mask], by),
                       values(custom(ms, kind).compute_on(part), []))
    if d:
      raise O.Mismatch('%s split by %s, slice %s: %s' % (kind, by, labs, d),
                       {'rows': rows})
    n += 1
  return (kind, tuple(by), n)
