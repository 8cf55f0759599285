"""C08: the sufficient-statistics form of a metric equals the metric."""
from engine import obligation as O
from props import C01
from props import catalog as C

P = 'C08'
LEVEL = 'proof'
TECHNIQUE = ('contract-based deductive verification: relational obligations '
             '(a metric against its expanded form, both symbolically executed '
             'from the real code) discharged by z3 with the aggregation rules; '
             'bounded relational suites over trees and missing values')
NOTE = ('Algebraic identities are proved over the reals with non-zero '
        'denominators; square roots and powers as uninterpreted functions '
        'with axioms; the unweighted correlation is compared where both forms are '
        'defined (its value is degenerate for constant columns). Floating point rounding is not modelled.')
FNS = ['metrics.Metric.get_equivalent', 'metrics.Metric.compute_equivalent',
       'utils.get_fully_expanded_equivalent_metric_tree',
       'utils.get_equivalent_metric_tree', 'utils.get_equivalent_metric',
       'utils.add_auxiliary_cols', 'utils.parse_auxiliary_col']

# simple metrics with an equivalent form: name -> (build, columns)
EQ = {
    'dot': (lambda ms, **k: ms.Dot('x', 'y', **k), 'x y'),
    'dot_same': (lambda ms, **k: ms.Dot('x', 'x', **k), 'x'),
    'dot_norm': (lambda ms, **k: ms.Dot('x', 'y', True, **k), 'x y'),
    'dot_norm_swap': (lambda ms, **k: ms.Dot('y', 'x', True, **k), 'x y'),
    'mean': (lambda ms, **k: ms.Mean('x', **k), 'x'),
    'wmean': (lambda ms, **k: ms.Mean('x', 'w', **k), 'x w'),
    'variance': (lambda ms, **k: ms.Variance('x', **k), 'x'),
    'variance_b': (lambda ms, **k: ms.Variance('x', False, **k), 'x'),
    'wvariance': (lambda ms, **k: ms.Variance('x', weight='w', **k), 'x w'),
    'wvariance_b': (lambda ms, **k: ms.Variance('x', False, weight='w', **k),
                    'x w'),
    'sd': (lambda ms, **k: ms.StandardDeviation('x', **k), 'x'),
    'sd_b': (lambda ms, **k: ms.StandardDeviation('x', False, **k), 'x'),
    'wsd': (lambda ms, **k: ms.StandardDeviation('x', weight='w', **k), 'x w'),
    'wsd_b': (lambda ms, **k: ms.StandardDeviation(
        'x', False, weight='w', **k), 'x w'),
    'cv': (lambda ms, **k: ms.CV('x', **k), 'x'),
    'cv_b': (lambda ms, **k: ms.CV('x', False, **k), 'x'),
    'corr': (lambda ms, **k: ms.Correlation('x', 'y', **k), 'x y'),
    'wcorr': (lambda ms, **k: ms.Correlation('x', 'y', weight='w', **k),
              'x y w'),
    'cov': (lambda ms, **k: ms.Cov('x', 'y', **k), 'x y'),
    'cov_b': (lambda ms, **k: ms.Cov('x', 'y', bias=True, **k), 'x y'),
    'cov_ddof': (lambda ms, **k: ms.Cov('x', 'y', ddof=2, **k), 'x y'),
    'cov_same': (lambda ms, **k: ms.Cov('x', 'x', **k), 'x'),
    'wcov': (lambda ms, **k: ms.Cov('x', 'y', weight='w', **k), 'x y w'),
    'wcov_b': (lambda ms, **k: ms.Cov('x', 'y', True, weight='w', **k),
               'x y w'),
    'fcov': (lambda ms, **k: ms.Cov('x', 'y', fweight='w', **k), 'x y w'),
    'wfcov': (lambda ms, **k: ms.Cov('x', 'y', weight='w', fweight='w', **k),
              'x y w'),
    'ratio': (lambda ms, **k: ms.Ratio('x', 'w', **k), 'x w'),
}
FEW = {'variance', 'sd', 'cv', 'cov', 'corr', 'wvariance', 'wsd', 'wcov',
       'cov_ddof', 'cov_same', 'fcov', 'wfcov'}


def expanded(build):
  def f(ms, df, by):
    from meterstick import utils
    m = build(ms)
    eq, df2 = utils.get_fully_expanded_equivalent_metric_tree(m, df)
    return eq.compute_on(df2, by)
  return f


WH = {'': {}, 'where': {'where': 'f > 1'}, 'wheres': {
    'where': ['f > 1', 'f < 4 or k == "a"']}}


def gen(rows):
  """Many rows per slice so that all statistics are defined."""
  import random  # pylint: disable=unused-import
  for r in rows:
    if 'f' in r:
      r['f'] = {0: 2, 1: 3, 2: 5}[hash(str(r['f'])) % 3]
  return rows


def table(cols, by, nulls=False):
  def f(rng, i):
    n = rng.choice([3, 5, 8, 12])
    rows = []
    for _ in range(n):
      r = {}
      for c in cols:
        k = C.SCH[c]
        r[c] = rng.choice(O.KEYS[:2]) if k == 'key' else rng.choice(
            O.POS if k == 'pos' else O.NUMS)
        if c == 'f':
          r[c] = rng.choice([1, 2, 3, 4, 5])
      rows.append(r)
    return rows
  return f


def sch(cols, *more):
  return {c: C.SCH[c] for c in cols.split() + list(more)}


import props.C03  # noqa: E402,F401  (declares the filter columns)

for n, (b, cols) in EQ.items():
  for by in ([], ['g'], ['g', 's']):
    for wn, kw in WH.items():
      if len(by) == 2 and wn or wn == 'wheres' and not by:
        continue
      more = by + (['f', 'k'] if wn else [])
      s = sch(cols, *more)
      bb = lambda ms, b=b, kw=kw: b(ms, **kw)
      needs = []
      if not by:
        sel = {'': lambda r: True, 'where': lambda r: r['f'] > 1}[wn]
        needs = [lambda rows, sel=sel: rows.where(sel).exists()] if wn else [
            lambda rows: rows.exists()]
      O.Obligation(
          'C08.expand.%s.%s.%s' % (n, ''.join(by), wn), P, FNS, s,
          lambda ms, df, bb=bb, by=by: bb(ms).compute_on(df, by),
          spec2=lambda ms, df, bb=bb, by=by: expanded(bb)(ms, df, by),
          needs=needs, gen=table(list(s), by), n=4,
          opts={'both_defined': n == 'corr'})
      if not wn or by == ['g']:
        O.Obligation(
            'C08.compute_equivalent.%s.%s.%s' % (n, ''.join(by), wn), P, FNS,
            s,
            lambda ms, df, bb=bb, by=by: bb(ms).compute_on(
                df, by, return_dataframe=False),
            spec2=lambda ms, df, bb=bb, by=by: bb(ms).compute_equivalent(
                df, by), needs=needs, gen=table(list(s), by), n=4,
            opts={'labels': False, 'both_defined': n == 'corr'})

for name, e in C.CAT.items():
  if not e.ded or e.unit or name in EQ:
    continue
  for by in ([], ['g']):
    if set(by) & set(e.cols):
      continue
    needs = [lambda rows: rows.exists()]
    if e.cond:
      base = {'c': 'a', 'h': 'b'} if name == 'pct_multi' else {'c': 'a'}
      needs.append(lambda rows, base=base: rows.at(**base).exists())
    O.Obligation(
        'C08.tree.%s.%s' % (name, ''.join(by)), P, FNS + e.fns,
        C.schema(e, *by),
        lambda ms, df, e=e, by=by: e.build(ms).compute_on(df, by),
        spec2=lambda ms, df, e=e, by=by: expanded(e.build)(ms, df, by),
        needs=needs, n=4,
        gen=lambda rng, i, e=e, by=by: C.table(e, rng, i, by))


# ------------------------------------------------------------ bounded
def show(m):
  return (type(m).__name__, getattr(m, 'name', m))


def suite(name, build, e, any_null=False):
  def run(ms, rng, i):
    from meterstick import utils
    by = [[], ['g'], ['g', 's']][i % 3]
    by = [c for c in by if c not in e.cols]
    mul = 2 if by else 1
    nulls = bool(i % 2) and len([c for c in e.cols if C.SCH[c] in (
        'num', 'pos')]) == 1
    rows = C.table(e, rng, i, by, nulls, e.rows[0] * mul, e.rows[1] * mul)
    if any_null and i % 2:
      nulls = rng.choice([c for c in e.cols if C.SCH[c] != 'key'])
      for r in rows:
        if rng.random() < .25:
          r[nulls] = None
    df = O.to_df(C.schema(e, *by), rows)
    m = build(ms)
    fp = m.get_fingerprint()
    eq, df2 = utils.get_fully_expanded_equivalent_metric_tree(m, df)
    if m.get_fingerprint() != fp:
      raise O.Mismatch('%s: expanding changed the metric' % name, {})
    if list(df.columns) != list(C.schema(e, *by)):
      raise O.Mismatch('%s: expanding changed the data' % name, {})
    if eq.name != m.name:
      raise O.Mismatch('%s: name %r of the expanded form, expected %r' % (
          name, eq.name, m.name), {})
    try:
      want = C01.values(m.compute_on(df, by), [])
    except Exception:  # pylint: disable=broad-except
      return None
    got = C01.values(eq.compute_on(df2, by), [])
    d = C01.compare_values(got, want, 1e-5)
    if d:
      raise O.Mismatch('%s split by %s: expanded form: %s' % (name, by, d),
                       {'rows': rows})
    # expanding twice changes nothing
    eq2, _ = utils.get_fully_expanded_equivalent_metric_tree(eq, df2)
    if eq2 != eq:
      raise O.Mismatch('%s: expansion is not a fixed point' % name, {})
    return (name, tuple(by), nulls)
  return run


for name, e in C.CAT.items():
  if not e.rand:
    O.Suite('C08.tree.' + name, P, FNS + e.fns, suite(name, e.build, e), 4,
            24, what='expanded form = metric (%s), names and inputs kept' %
            name)
for n, (b, cols) in EQ.items():
  e = C.Entry.__new__(C.Entry)
  e.__dict__.update(C.CAT['mean'].__dict__)
  e.cols = cols.split()
  O.Suite('C08.simple.' + n, P, FNS, suite(n, b, e, n != 'corr'), 12, 60,
          what='expanded form = metric (%s)' % n)


# ------------------------------------------------- derived columns
# Specifications of derived columns (add_auxiliary_cols) and what they mean.
AUX = {
    'plus': (('x', '+', 'y'), lambda d: d['x'] + d['y']),
    'minus': (('x', '-', 'y'), lambda d: d['x'] - d['y']),
    'minus_swap': (('y', '-', 'x'), lambda d: d['y'] - d['x']),
    'times': (('y', '*', 'x'), lambda d: d['x'] * d['y']),
    'times_same': (('x', '*', 'x'), lambda d: d['x'] * d['x']),
    'over': (('x', '/', 'w'), lambda d: d['x'] / d['w']),
    'over_const': (('x', '/', 4), lambda d: d['x'] / 4),
    'const_minus': ((3, '-', 'x'), lambda d: 3 - d['x']),
    'const_plus': ((3, '+', 'x'), lambda d: 3 + d['x']),
    'power': (('x', '**', 2), lambda d: d['x']**2),
    'nest_minus': (('x', '-', ('y', '-', 'w')),
                   lambda d: d['x'] - (d['y'] - d['w'])),
    'nest_left': ((('x', '+', 'y'), '-', 'w'),
                  lambda d: d['x'] + d['y'] - d['w']),
    'nest_over': (('x', '/', (('w', '*', 'w'), '/', 'w')),
                  lambda d: d['x'] / (d['w'] * d['w'] / d['w'])),
    'nest_mix': ((('x', '*', ('y', '+', 1)), '-', ('w', '*', 2)),
                 lambda d: d['x'] * (d['y'] + 1) - d['w'] * 2),
    'call': (('x', lambda a, b: a - 2 * b, 'y'),
             lambda d: d['x'] - 2 * d['y']),
}
AUX_SCHEMA = {'x': 'num?', 'y': 'num', 'w': 'pos', 'g': 'key'}


def aux_impl(spec, by):
  def f(ms, df):
    d, names = ms.utils.add_auxiliary_cols([spec, ('x', '*', 'y')], df.copy())
    return [ms.MetricList([ms.Sum(n), ms.Count(n)], rename_columns=[
        'a', 'b']).compute_on(d, by) for n in names]
  return f


def aux_spec(value, by):
  def f(ms, df):
    out = []
    for fn in (value, lambda d: d['x'] * d['y']):
      d = df.copy()
      d['z'] = fn(df)
      out.append(ms.MetricList([ms.Sum('z'), ms.Count('z')], rename_columns=[
          'a', 'b']).compute_on(d, by))
    return out
  return f


for _n, (_spec, _value) in AUX.items():
  for _by in (None, 'g'):
    O.Obligation('C08.aux.%s.%s' % (_n, _by or 'all'), P, FNS, AUX_SCHEMA,
                 aux_impl(_spec, _by), spec2=aux_spec(_value, _by), n=4)


def aux_sql(ms, rng, i):
  """The generated name is the expression in SQL."""
  from props import C13
  n = sorted(k for k in AUX if k != 'call')[i % (len(AUX) - 1)]
  spec, value = AUX[n]
  rows = [{'x': rng.choice(O.NUMS), 'y': rng.choice(O.NUMS),
           'w': rng.choice(O.POS), 'g': rng.choice('ab')} for _ in range(7)]
  df = O.to_df(AUX_SCHEMA, rows)
  _, (name,) = ms.utils.add_auxiliary_cols([spec])
  got = ms.Sum(name).compute_on_sql('T', execute=C13.Exec(df)).iloc[0, 0]
  want = value(df).sum()
  if abs(got - want) > 1e-6 * (1 + abs(want)):
    raise O.Mismatch('derived column %s: the sum on SQL is %s, not %s' % (
        name, got, want), {'rows': rows, 'spec': repr(spec)})
  return n


O.Suite('C08.aux_sql', P, FNS, aux_sql, 28, 140,
        what='derived columns on SQL')
