"""C16: covariate adjustment."""
import collections
import warnings

import numpy as np

from engine import compare
from engine import obligation as O
from engine import spec as S
from props import C13
from props import sqlalso

P = 'C16'
LEVEL = 'proof'
TECHNIQUE = (
    'contract-based deductive verification: PrePostChange and CUPED over '
    'abstract child and covariate metrics equal the change of the adjusted '
    'values (closed-form least squares for one covariate, the contract of '
    'sklearn LinearRegression for several), for all tables, on symbolically '
    'executed real code, discharged by z3; bounded suites against an '
    'independent least-squares oracle, also for the generated SQL')
NOTE = (
    'Children and covariates are uninterpreted metrics present in every '
    'stratum; denominators (the variance of the covariate, the baseline '
    'value) are taken to be non-zero. With several covariates the fit is an '
    'uninterpreted function of the multiset of rows (trusted contract); that '
    'it is least squares is compared on generated tables.')
SCH = {'x': 'num', 'y': 'num', 'z': 'num', 'g': 'key', 'c': 'key', 'h': 'key',
       's': 'key'}
SPLITS = {'all': [], 'g': ['g'], 'gs': ['g', 's']}
FNS = ['operations.PrePostChange.compute_on_children',
       'operations.PrePostChange.compute_children',
       'operations.PrePostChange.adjust_value',
       'operations.PrePostChange.compute_children_sql',
       'operations.PrePostChange.get_change_raw_sql',
       'operations.CUPED.adjust_value', 'operations.CUPED.compute_children',
       'operations.PercentChange.compute_on_children',
       'operations.AbsoluteChange.compute_on_children',
       'operations.Comparison.__init__',
       'operations.Operation.compute_slices', 'metrics.Metric.group']
m1 = lambda g: g.opaque('M1', 'x')
m2 = lambda g: g.opaque('M2', 'y')
m3 = lambda g: g.opaque('M3', 'z')


def A(ms):
  return ms.Abstract('M1', ('x',))


def B(ms):
  return ms.Abstract('M2', ('y',))


def Z(ms):
  return ms.Abstract('M3', ('z',))


m4 = lambda g: g.opaque('M4', 'x', 'y')


def Y(ms):
  return ms.Abstract('M4', ('x', 'y'))


def fit(labels, child, cov):
  """Intercept and slope of child on cov over the strata."""
  n = labels.count()
  mc, mv = labels.mean(child), labels.mean(cov)
  mc, mv = S.val(mc), S.val(mv)
  cv = labels.sum(lambda s: (child(s) - mc) * (cov(s) - mv)) / (n - 1)
  vr = labels.sum(lambda s: (cov(s) - mv) * (cov(s) - mv)) / (n - 1)
  return mc, mv, cv / vr


def prepost(child, cov, by, strata, conds):
  """Intercept of the fit in the rows of one condition."""
  def f(g):
    whole = g.tabwide.at(**{k: g.keys[k] for k in by})
    centre = S.val(whole.labels(*(strata + conds)).mean(cov))
    mc, mv, theta = fit(g.labels(*strata), child, lambda s: cov(s) - centre)
    return mc - theta * mv
  return f


def cuped(child, cov, by, strata, conds):
  def f(g):
    whole = g.tabwide.at(**{k: g.keys[k] for k in by})
    labels = whole.labels(*(strata + conds))
    centre = S.val(labels.mean(cov))
    _, _, theta = fit(labels, child, lambda s: cov(s) - centre)
    mine = g.labels(*strata)
    return S.val(mine.mean(child)) - theta * S.val(
        mine.mean(lambda s: cov(s) - centre))
  return f


def wide(rows, f):
  def v(g):
    g.tabwide = rows
    return f(g)
  return v


def change(f, comb, by, conds, base):
  def value(g):
    b = g.tabwide.at(**{k: g.keys[k] for k in by})
    b = b.at(**dict(zip(conds, base)))
    b.tabwide = g.tabwide
    return S.given(b.exists(), comb(f(g), f(b)))
  return value


def frame(rows, by, conds, base, cols, include):
  from engine import terms as T

  def present(g):
    if include:
      return g.exists()
    e = g.exists().term
    isb = T.and_(*[S.sympd.lift(g.keys[c] == b).val
                   for c, b in zip(conds, base)])
    return S.SymBool(T.and_(e, T.neg(isb)))
  return S.frame(rows, by + conds, [(l, wide(rows, f)) for l, f in cols],
                 present)


def no_base(kind, rows):
  if kind != 'KeyError':
    return False
  return ~rows.at(c='a').exists()


def gen(rng, i):
  rows = O.gen_table(SCH, rng, i, 14)
  if i % 7 and rows:
    rng.choice(rows)['c'] = 'a'
  return rows


KINDS = {'prepost': ('PrePostChange', '{} PrePost Percent Change', prepost,
                     lambda v, b: (v / b - 1) * 100),
         'cuped': ('CUPED', '{} CUPED Change', cuped, lambda v, b: v - b)}

for _k, (_cls, _t, _adj, _comb) in KINDS.items():
  for _sn, _by in SPLITS.items():
    for _kind, _child, _cols in (
        ('one', A, [('M1', m1)]),
        ('list', lambda ms: ms.MetricList([A(ms), B(ms)]),
         [('M1', m1), ('M2', m2)])):
      for _inc in (False, True):
        O.Obligation(
            'C16.%s.%s.%s.%s' % (_k, _kind, _sn, 'base' if _inc else 'nobase'),
            P, FNS, SCH,
            lambda ms, df, cls=_cls, by=_by, child=_child, inc=_inc: getattr(
                ms, cls)('c', 'a', child(ms), Z(ms), 'h',
                         include_base=inc).compute_on(df, by),
            lambda rows, by=_by, t=_t, adj=_adj, comb=_comb, cols=_cols,
            inc=_inc: frame(rows, by, ['c'], ['a'], [
                (t.format(l), change(adj(m, m3, by, ['h'], ['c']), comb, by,
                                     ['c'], ['a'])) for l, m in cols], inc),
            gen=gen, may_raise=no_base, n=8, opts={'both_defined': True})


def multi(which, child, covs, by, strata, conds):
  """Several covariates: the least-squares fit is uninterpreted."""
  tag = 'sk;LinearRegression;fit_intercept=True;'

  def centred(g):
    whole = g.tabwide.at(**{k: g.keys[k] for k in by})
    labels = whole.labels(*(strata + conds))
    cs = [S.val(labels.mean(c)) for c in covs]
    return labels, [lambda s, c=c, m=m: c(s) - m for c, m in zip(covs, cs)]

  def prepost_(g):
    _, xs = centred(g)
    return g.labels(*strata).opaque(tag + 'intercept', *(xs + [child]))

  def cuped_(g):
    labels, xs = centred(g)
    mine = g.labels(*strata)
    v = S.val(mine.mean(child))
    for i, x in enumerate(xs):
      v = v - S.val(mine.mean(x)) * labels.opaque(
          tag + 'coef%d' % i, *(xs + [child]))
    return v
  return prepost_ if which == 'prepost' else cuped_


for _k, (_cls, _t, _adj, _comb) in KINDS.items():
  for _sn, _by in SPLITS.items():
    for _kind, _child, _cols in (
        ('one', A, [('M1', m1)]),
        ('list', lambda ms: ms.MetricList([A(ms), Y(ms)]),
         [('M1', m1), ('M4', m4)])):
      O.Obligation(
          'C16.%s.%s.%s.multi' % (_k, _kind, _sn), P, FNS, SCH,
          lambda ms, df, cls=_cls, by=_by, child=_child: getattr(
              ms, cls)('c', 'a', child(ms), [Z(ms), B(ms)],
                       'h').compute_on(df, by),
          lambda rows, by=_by, t=_t, k=_k, comb=_comb, cols=_cols: frame(
              rows, by, ['c'], ['a'], [
                  (t.format(l), change(multi(k, m, [m3, m2], by, ['h'], ['c']),
                                       comb, by, ['c'], ['a']))
                  for l, m in cols], False),
          gen=gen, may_raise=no_base, n=8, opts={'both_defined': True})


# two stratification columns, two condition columns
for _k, (_cls, _t, _adj, _comb) in KINDS.items():
  for _sn, _by in (('all', []), ('g', ['g'])):
    O.Obligation(
        'C16.%s.strata2.%s' % (_k, _sn), P, FNS, SCH,
        lambda ms, df, cls=_cls, by=_by: getattr(ms, cls)(
            'c', 'a', A(ms), Z(ms), ['h', 's']).compute_on(df, by),
        lambda rows, by=_by, t=_t, adj=_adj, comb=_comb: frame(
            rows, by, ['c'], ['a'], [(t.format('M1'), change(
                adj(m1, m3, by, ['h', 's'], ['c']), comb, by, ['c'],
                ['a']))], False),
        gen=gen, may_raise=no_base, n=8, opts={'both_defined': True})
    O.Obligation(
        'C16.%s.cond2.%s' % (_k, _sn), P, FNS, SCH,
        lambda ms, df, cls=_cls, by=_by: getattr(ms, cls)(
            ['c', 's'], ('a', 'b'), A(ms), Z(ms), 'h').compute_on(df, by),
        lambda rows, by=_by, t=_t, adj=_adj, comb=_comb: frame(
            rows, by, ['c', 's'], ['a', 'b'], [(t.format('M1'), change(
                adj(m1, m3, by, ['h'], ['c', 's']), comb, by, ['c', 's'],
                ['a', 'b']))], False),
        gen=gen, n=8, opts={'both_defined': True},
        may_raise=lambda kind, rows: kind == 'KeyError' and ~rows.at(
            c='a', s='b').exists())
  # the operation applied to a MetricList of child and covariates
  for _form in ('call', 'pipe', 'partial'):
    def _impl(ms, df, cls=_cls, form=_form):
      pair = ms.MetricList((A(ms), Z(ms)))
      if form == 'partial':
        return A(ms) | getattr(ms, cls)(
            'c', 'a', covariates=Z(ms), stratified_by='h') | (
                ms.compute_on(df, 'g'))
      op = getattr(ms, cls)('c', 'a', stratified_by='h')
      if form == 'call':
        return op(pair).compute_on(df, 'g')
      return pair | op | ms.compute_on(df, 'g')
    O.Obligation(
        'C16.%s.%s.g' % (_k, _form), P,
        FNS + ['operations.Operation.__call__'], SCH, _impl,
        lambda rows, t=_t, adj=_adj, comb=_comb: frame(
            rows, ['g'], ['c'], ['a'], [(t.format('M1'), change(
                adj(m1, m3, ['g'], ['h'], ['c']), comb, ['g'], ['c'],
                ['a']))], False),
        gen=gen, may_raise=no_base, n=8, opts={'both_defined': True})


# ------------------------------------------------------------------ bounded
MEASURES = {
    "Sum('x')": lambda r: sum(z['x'] for z in r),
    "Mean('y')": lambda r: sum(z['y'] for z in r) / len(r),
    "Ratio('x', 'w')": lambda r: sum(z['x'] for z in r) / sum(
        z['w'] for z in r),
    "Sum('y', where='w > 1')": lambda r: sum(
        z['y'] for z in r if z['w'] > 1),
    "Sum('x') + 3": lambda r: sum(z['x'] for z in r) + 3,
    "Count('y')": len,
}
BSCH = {'x': 'num', 'y': 'num', 'w': 'pos', 'g': 'key', 'c': 'key', 'd': 'key',
        'h': 'key', 's': 'key'}
NAMES = {"Sum('x') + 3": 'sum(x) + 3', "Ratio('x', 'w')": 'sum(x) / sum(w)',
         "Sum('x')": 'sum(x)', "Mean('y')": 'mean(y)', "Count('y')": 'count(y)',
         "Sum('y', where='w > 1')": 'sum(y)'}


def table(rng, by, strata, conds, few):
  """Every stratum of every condition has rows (unless few)."""
  rows = []
  for g in 'ab' if by else 'a':
    for s in ('k', 'l') if len(by) > 1 else 'k':
      for c in 'abc' if rng.random() < .5 else 'ab':
        for d in 'uv' if len(conds) > 1 else 'u':
          for h in range(rng.randint(4, 6)):
            for t in range(2 if len(strata) > 1 else 1):
              if few and rng.random() < .15:
                continue
              for _ in range(rng.randint(1, 2)):
                rows.append({
                    'x': float(rng.randint(-9, 9)),
                    'y': float(rng.randint(-9, 9)),
                    'w': float(rng.randint(2, 5)), 'g': g, 'c': c, 'd': d,
                    'h': 'h%d' % h, 's': s if len(by) > 1 else 't%d' % t})
  rng.shuffle(rows)
  return rows


def least_squares(xs, y):
  """coefficients, intercept; None when the fit is not unique."""
  a = np.column_stack([np.ones(len(y))] + [np.array(x, float) for x in xs])
  if len(y) < a.shape[1] or np.linalg.matrix_rank(a, 1e-7) < a.shape[1]:
    return None
  b = np.linalg.lstsq(a, np.array(y, float), rcond=None)[0]
  return b[1:], b[0]


def adjusted(rows, kind, child, covs, strata, conds):
  """{condition: adjusted value of the child} in one slice, or None."""
  cells = collections.defaultdict(list)
  for r in rows:
    cells[tuple(r[k] for k in conds), tuple(r[k] for k in strata)].append(r)
  y = {k: child(v) for k, v in cells.items()}
  x = {k: [f(v) for f in covs] for k, v in cells.items()}
  centre = np.mean([x[k] for k in x], 0)
  x = {k: np.array(v) - centre for k, v in x.items()}
  out = {}
  if kind == 'cuped':
    fit = least_squares(list(zip(*x.values())), list(y.values()))
    if fit is None:
      return None
  for c in sorted({k[0] for k in cells}):
    mine = [k for k in cells if k[0] == c]
    if kind == 'cuped':
      out[c] = np.mean([y[k] for k in mine]) - np.mean(
          [x[k] for k in mine], 0) @ fit[0]
    else:
      fit = least_squares(list(zip(*[x[k] for k in mine])),
                          [y[k] for k in mine])
      if fit is None:
        return None
      out[c] = fit[1]
  return out


def oracle(rows, kind, children, covs, by, strata, conds, base, include):
  slices = collections.defaultdict(list)
  for r in rows:
    slices[tuple(r[k] for k in by)].append(r)
  out = {}
  for g, rs in slices.items():
    adj = [adjusted(rs, kind, f, covs, strata, conds) for f in children]
    if any(a is None for a in adj):
      return None
    for c in adj[0]:
      if c == base and not include:
        continue
      out[g + c] = []
      for a in adj:
        if base not in a or kind == 'prepost' and abs(a[base]) < 1e-3:
          return None
        out[g + c].append((a[c] / a[base] - 1) * 100 if kind == 'prepost'
                          else a[c] - a[base])
  return out


def fit_suite(kind, sql):
  cls, title, _, _ = KINDS[kind]

  def run(ms, rng, i):
    warnings.simplefilter('ignore')
    by = [[], ['g'], ['g', 's']][i % 3]
    strata = ['h'] if i % 4 or len(by) > 1 else ['h', 's']
    conds = ['c', 'd'] if (i // 3) % 3 == 2 else ['c']
    base = ('a', 'u')[:len(conds)]
    names = rng.sample(sorted(MEASURES), rng.randint(2, 4))
    ncov = 1 if sql == 'sql' or len(names) < 3 else rng.choice([1, 2])
    kids, covs = names[:-ncov], names[-ncov:]
    include = bool(i % 2)
    rows = table(rng, by, strata, conds, i % 5 == 0)
    df = O.to_df(BSCH, rows)
    call = i % 7 == 3
    one = lambda a: a[0] if len(a) == 1 and rng.random() < .7 else a
    spec = {'kids': kids, 'covariates': covs, 'strata': one(strata),
            'conds': one(conds), 'call': call,
            'where': 'w > 2' if i % 6 == 4 else None}

    def make():
      k = [eval(n, dict(vars(ms))) for n in kids]  # pylint: disable=eval-used
      v = [eval(n, dict(vars(ms))) for n in covs]  # pylint: disable=eval-used
      child = k[0] if len(k) == 1 else ms.MetricList(k)
      op = getattr(ms, cls)
      b = base[0] if isinstance(spec['conds'], str) else base
      if len(b) == 1:
        b = b[0]
      c = v[0] if len(v) == 1 else v
      if call:
        return op(spec['conds'], b, stratified_by=spec['strata'],
                  include_base=include,
                  where=spec['where'])(ms.MetricList((
                      child, ms.MetricList(c) if len(v) > 1 else c)))
      return op(spec['conds'], b, child, c, spec['strata'], include,
                where=spec['where'])
    kept = [r for r in rows if not spec['where'] or r['w'] > 2]
    want = oracle(kept, kind, [MEASURES[n] for n in kids],
                  [MEASURES[n] for n in covs], by, strata, conds, base,
                  include)
    if want is None:
      return None
    case = {'op': cls, 'spec': spec, 'by': by, 'rows': rows,
            'include_base': include, 'through': sql}
    if sql == 'df':
      res = O.run_impl(lambda: make().compute_on(df, by or None))
    else:
      ex = C13.Exec(df)
      res = O.run_impl(lambda: make().compute_on_sql(
          'T', by or None, execute=ex, mode=None if sql == 'sql' else 'mixed'))
      if ex.unsupported:
        return None
      case['sql'] = ex.log[-1:]
    if isinstance(res, compare.Raised):
      raise O.Mismatch('raises %s: %s' % (res.kind, str(res.exc)[:200]), case)
    got = compare.from_real(res)
    labels = [title.format(NAMES[n]) for n in kids]
    if got['columns'] != [(l,) for l in labels] and got['columns'] != labels:
      raise O.Mismatch('columns %s, expected %s' % (got['columns'], labels),
                       case)
    if list(got['names']) != by + conds:
      raise O.Mismatch('index %s' % (got['names'],), case)
    vals = dict(got['rows'])
    if set(vals) != set(want) or len(got['rows']) != len(want):
      raise O.Mismatch('rows %s, expected %s' % (
          sorted(vals), sorted(want)), case)
    for k in want:
      for l, a, b in zip(labels, vals[k], want[k]):
        if a is None or abs(a - b) > 1e-6 * max(1, abs(b)):
          raise O.Mismatch('%s at %s is %s, the least-squares fit gives %s' % (
              l, k, a, b), case)
    return (len(by), len(strata), len(conds), ncov, len(kids))
  return run


for _k in KINDS:
  for _m, _n in (('df', 120), ('sql', 60), ('mixed', 60)):
    O.Suite('C16.%s.fit.%s' % (_k, _m), P, FNS, fit_suite(_k, _m), _n,
            _n * 15,
            what='%s equals the change of values adjusted by an independent '
            'least-squares fit (%s)' % (KINDS[_k][0], _m))


@O.suite('C16.partial', P, FNS + ['operations.Operation.__call__'], 4, 8,
         what='an operation given its covariates but no child, applied to a '
         'child, is the operation given both')
def partial(ms, rng, i):
  warnings.simplefilter('ignore')
  cls = ('PrePostChange', 'CUPED')[i % 2]
  rows = table(rng, [], ['h'], ['c'], False)
  df = O.to_df(BSCH, rows)
  op = getattr(ms, cls)
  a = op('c', 'a', ms.Sum('x'), ms.Mean('y'), 'h').compute_on(df)
  b = O.run_impl(lambda: op('c', 'a', covariates=ms.Mean('y'),
                            stratified_by='h')(ms.Sum('x')).compute_on(df))
  case = {'op': cls, 'rows': rows}
  if isinstance(b, compare.Raised):
    raise O.Mismatch('%s(covariates=...)(child) raises %s' % (cls, b.kind),
                     case)
  d = compare.diff(compare.from_real(b), compare.from_real(a), {}, 1e-9)
  if d:
    raise O.Mismatch('%s(covariates=...)(child): %s' % (cls, d), case)
  return (cls,)


# ------------------------------------------------- the same on SQL
sqlalso.also(P, sqlalso.entries('prepost', 'cuped'), sqlalso.trees(
    'prepost_*', 'cuped_*', 'jk_cuped', 'jk_prepost'))
