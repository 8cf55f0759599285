"""C13: computing on SQL gives the result of computing on the DataFrame."""
import warnings

from engine import compare
from engine import obligation as O
from engine.sqlx import parse, run
from props import catalog as C
from props import sqlcat as Q

P = 'C13'
LEVEL = 'proof'
TECHNIQUE = ('contract-based deductive verification: the generated query, '
             'evaluated relationally under BigQuery contracts '
             '(engine/sqlx/sym.py), equals the symbolically executed '
             'compute_on for every table, discharged by z3; replayed on real '
             'data; bounded suites for the trees outside the contracts')
NOTE = ('Proved for the trees listed in the evidence, for all tables '
             'whose denominators are not zero; filtered trees: for the '
             'slices present on both sides. MH, ranking metrics (TopK, Nxx, '
             'order by values), quantiles, CUPED/PrePost and resampling '
             'except Jackknife of sums are bounded.')
FNS = ['metrics.Metric.compute_on_sql', 'metrics.Metric.to_sql',
       'metrics.Metric.get_sql_and_with_clause',
       'metrics.Metric.compute_on_sql_sql_mode', 'sql.Sql', 'sql.Columns',
       'sql.Datasources', 'sql.Filters']


class Exec(object):
  """execute= callable that notes queries and constructs out of reach."""

  def __init__(self, df, seed=0):
    self.df, self.seed, self.log, self.unsupported = df, seed, [], None

  def __call__(self, sql):
    self.log.append(str(sql))
    self.seed += 1
    try:
      return run.run(sql, {'T': self.df}, self.seed)
    except parse.SqlUnsupported as e:
      self.unsupported = str(e)
      raise


def drop_missing(n):
  """A row all of whose values are missing may be absent."""
  if isinstance(n, dict) and 'rows' in n and n['kind'] != 'scalar':
    n['rows'] = [(k, v) for k, v in n['rows'] if any(
        q is not None for q in v)]
  return n


def has_inf(n):
  return isinstance(n, dict) and any(
      isinstance(v, float) and v in (float('inf'), float('-inf'))
      for _, vs in n.get('rows', ()) for v in vs)


def agree(ms, name, build, df, by, rows, mode=None, melted=False, table='T',
          key=None, post=None, frame=True):
  """Compares both computations; returns None when out of scope."""
  ex = Exec(df)
  a = O.run_impl(lambda: build(ms).compute_on(df, by or None, melted=melted))
  b = O.run_impl(lambda: build(ms).compute_on_sql(
      table, by or None, execute=ex, mode=mode, melted=melted))
  if ex.unsupported:
    return None
  if isinstance(a, compare.Raised):
    return None  # outside the domain of the metric
  case = {'metric': name, 'by': by, 'mode': mode, 'rows': rows,
          'sql': ex.log[-1:]}
  if isinstance(b, compare.Raised):
    raise O.Mismatch('%s split by %s on SQL raises %s: %s' % (
        name, by, b.kind, str(b.exc)[:300]), case, key)
  x, y = drop_missing(compare.from_real(b)), drop_missing(compare.from_real(a))
  if has_inf(y):
    return None
  d = (post or compare.diff)(x, y, {}, 1e-6)
  slices, want = ([r[0][:len(by)] for r in z['rows']] for z in (x, y))
  if not d and by and not melted and slices != sorted(slices) and (
      want == sorted(want)):
    d = 'the slices are ordered %s' % (slices,)
  if d:
    raise O.Mismatch('%s split by %s on SQL: %s' % (name, by, d), case, key)
  return (name, tuple(by), len(y['rows']) > 1)


KNOWN = {
    'dup': 'C13-duplicates-merged',
    'jk_list': 'C13-jackknife-in-list-labels',
    'merged_names': 'C13-merged-names',
}


def tree_suite(t, mode=None, known=None):
  known = KNOWN if known is None else known

  def fn(ms, rng, i):
    warnings.simplefilter('ignore')
    by = Q.BY[i % 3]
    nulls = t.name not in Q.NONULL and (i // 3) % 2 == 1
    rows = Q.table(t, rng, i, by, nulls)
    df = O.to_df(Q.SCHEMA, rows)
    table = 'T'
    if i % 4 == 3:
      table = 'SELECT * FROM T WHERE w > 0'
    melted = i % 5 == 4
    return agree(ms, t.name, t.build, df, by, rows, mode, melted, table,
                 known.get(t.name))
  return fn


def entry_suite(e, mode=None):
  t = Q.Tree(e.name, e.build, e.cond, e.rows)

  def fn(ms, rng, i):
    warnings.simplefilter('ignore')
    by = [b for b in Q.BY[i % 3] if b not in e.cols]
    nulls = len([c for c in e.cols if C.SCH[c] in ('num', 'pos')]) == 1 and (
        i // 3) % 2 == 1
    rows = Q.table(t, rng, i, by, nulls)
    df = O.to_df(Q.SCHEMA, rows)
    return agree(ms, e.name, e.build, df, by, rows, mode, i % 5 == 4)
  return fn


for name_, e_ in C.CAT.items():
  if e_.sql is True:
    O.Suite('C13.entry.' + name_, P, FNS + e_.fns, entry_suite(e_), 6, 60,
            what='compute_on_sql = compute_on (%s)' % name_)
for name_, t_ in Q.TREES.items():
  O.Suite('C13.tree.' + name_, P, FNS, tree_suite(t_), 6, 60,
          what='compute_on_sql = compute_on (%s)' % name_)


# ------------------------------------------------- approximate quantiles
def between(sorted_vals, q):
  n = len(sorted_vals)
  p = q * (n - 1)
  lo, hi = max(0, int(p - .006 * n)), min(n - 1, int(p + .006 * n) + 1)
  return sorted_vals[lo], sorted_vals[hi]


@O.suite('C13.quantiles', P, FNS + ['metrics.Quantile'], 8, 60,
         what='SQL quantiles are elements of the sample at the rank asked for '
         '(within the resolution of APPROX_QUANTILES(., 100))')
def quantiles(ms, rng, i):
  qs = [0.5, (0.1, 0.5, 0.9), 0.29, (0.57, 0.58), 1, 0, (0., 1.)][i % 7]
  by = [[], ['g']][i % 2]
  n = rng.choice([5, 20, 300])
  v = rng.sample(range(1, 4 * n), n)
  rows = [{'x': float(z), 'g': rng.choice('ab')} for z in v]
  df = O.to_df({'x': 'num', 'g': 'key'}, rows)
  ex = Exec(df)
  r = ms.Quantile('x', qs).compute_on_sql('T', by or None, execute=ex)
  p = ms.Quantile('x', qs).compute_on(df, by or None)
  case = {'quantile': qs, 'by': by, 'rows': rows, 'sql': ex.log}
  if list(r.columns) != list(p.columns) or list(r.index) != list(p.index):
    raise O.Mismatch('labels %s %s' % (list(r.columns), list(r.index)), case)
  for g, row in r.iterrows():
    s = sorted(z['x'] for z in rows if not by or z['g'] == g)
    for q, z in zip(qs if isinstance(qs, tuple) else (qs,), row):
      lo, hi = between(s, q)
      if not lo <= z <= hi:
        raise O.Mismatch('quantile %s of %d values is %s, not in [%s, %s]' % (
            q, len(s), z, lo, hi), case)
  return (str(qs), bool(by))
# ------------------------------------------------- for all tables
def executor(df):
  from engine.facade import sympd
  if isinstance(df, sympd.DataFrame):
    from engine.sqlx import sym
    return sym.executor(df)
  return Exec(df)


def ob_rows(t, by):
  return lambda rng, i: Q.table(t, rng, i, by)


# Zero denominators, which the concrete tables avoid, are NULL in one engine
# and dropped, infinite or missing in the other: proved for the cells and rows
# which are defined in both.
DIVIDES = set('''cumdist_order cv cv_b dist_of_abs entropy list_where wcorr wcov
wvariance entropy_where count_star_ratio cumdist_desc_order dist_comp dist_dist hhi_list2
hhi_where list_both list_nested mh_in_where mh_ratio pct_composite pct_div pct_hhi pct_pct
pct_sum_plain pct_where_list2 two_filters_same_name variance_list
where_eq'''.split())


def sql_obligation(prop, kind, t, by, fns, mode=None, table='T', melted=False):
  """compute_on_sql == compute_on for all tables."""

  def impl(ms, df):
    return t.build(ms).compute_on_sql(table, by or None, execute=executor(df),
                                      mode=mode, melted=melted)

  def spec2(ms, df):
    d = df.query('x > 0') if table != 'T' else df
    return t.build(ms).compute_on(d, by or None, melted=melted)
  # where a filter leaves nothing of a slice is outside the property
  code = t.build.__code__
  filtered = table != 'T' or 'where' in repr((code.co_consts, code.co_names))
  opts = {'absent': True, 'sql': True, 'rows': not filtered}
  if t.name in DIVIDES:
    opts = {'absent': True, 'sql': True, 'rows': False, 'both_defined': True,
            'concrete': opts}
  O.Obligation('%s.%s.%s.%s' % (prop, kind, t.name, ''.join(by) or 'all'), prop,
               fns, Q.SCHEMA, impl, spec2=spec2, gen=ob_rows(t, by), n=2,
               opts=opts)


# Beyond the symbolic evaluator or the prover: the bounded suites stand in.
UNDECIDED = set('''nxx topk
nxx_list topk_list topk_where pct_topk pct_nxx cumdist_values cumdist_pct
cumdist_desc_order pct_sum_plain pct_where_list2
jackknife_abs jackknife_pct_ci'''.split())


def out_of_reach(n, mode=None, by=()):
  return n in UNDECIDED or any(
      s in n for s in ('jk', 'nth', 'quantile', 'cuped', 'prepost',
                       'jackknife' if mode else 'jk')) or (
      # the resampling path slice by slice
      bool(by) and n in ('jackknife_max', 'jackknife_slow'))


SUBQUERY = 'SELECT * FROM T WHERE x > 0'


def all_obligations(prop, mode, known):
  for n, e in C.CAT.items():
    if e.sql is True and (not mode or e.mixed) and not e.rand and (
        not out_of_reach(n, mode)):
      for by in Q.BY:
        if not set(by) & set(e.extra) and not out_of_reach(n, mode, by):
          sql_obligation(prop, 'for_all', Q.Tree(n, e.build, e.cond, e.rows),
                         by, FNS + e.fns, mode)
  for n, t in Q.TREES.items():
    if not out_of_reach(n, mode) and n not in known:
      for by in Q.BY[:2]:
        sql_obligation(prop, 'for_all_tree', t, by, FNS, mode)


all_obligations(P, None, KNOWN)
