"""C09: comparisons measure the change against the named baseline."""
from engine import obligation as O
from engine import spec as S
from props import sqlalso

P = 'C09'
LEVEL = 'proof'
TECHNIQUE = ('contract-based deductive verification: comparisons over an '
             'abstract child metric, symbolic execution of the real code, '
             'obligations discharged by z3; replay on real pandas')
NOTE = ('The child is an uninterpreted metric.  A baseline that occurs '
        'nowhere in the data may raise KeyError.  MH is proved for ratios of '
        'abstract metrics with one stratum and one condition column.')
SCH = {'x': 'num', 'y': 'num', 'g': 'key', 'c': 'key', 'h': 'key'}
SPLITS = {'all': [], 'g': ['g'], 'gh': ['g', 'h']}
FNS = ['operations.Operation.compute_slices',
       'operations.Operation.compute_children',
       'operations.Operation.compute_child',
       'operations.Operation.manipulate',
       'metrics.Metric.compute_util_metric_on', 'metrics.Metric.compute_on']

m1 = lambda g: g.opaque('N1', 'x')
m2 = lambda g: g.opaque('N2', 'y')
pct = lambda v, b: (v / b - 1) * 100
diff = lambda v, b: v - b
KINDS = {'pct': ('PercentChange', '{} Percent Change', pct),
         'abs': ('AbsoluteChange', '{} Absolute Change', diff)}


def A(ms):
  return ms.Abstract('N1', ('x',))


def B(ms):
  return ms.Abstract('N2', ('y',))


def change(ms, f, comb, conds, base, by):
  """Value in a group against the value of the same slice's baseline."""
  def value(g):
    b = g.tabwide.at(**{k: g.keys[k] for k in by})
    b = b.at(**dict(zip(conds, base)))
    return S.given(b.exists(), comb(f(g), f(b)))
  return value


def frame(rows, by, conds, base, cols, include):
  def wrapcol(f):
    def v(g):
      g.tabwide = rows
      return f(g)
    return v

  def present(g):
    if include:
      return g.exists()
    e = g.exists().term
    from engine import terms as T
    isb = T.and_(*[S.sympd.lift(g.keys[c] == b).val
                   for c, b in zip(conds, base)])
    return S.SymBool(T.and_(e, T.neg(isb)))
  return S.frame(rows, by + conds, [(l, wrapcol(f)) for l, f in cols],
                 present=present)


def no_base(conds, base):
  def ok(kind, rows):
    if kind != 'KeyError':
      return False
    return ~rows.at(**dict(zip(conds, base))).exists()
  return ok


POOL = ['a', 'b', 'c']


def gen(rng, i):
  rows = O.gen_table(SCH, rng, i, 9)
  if i % 7 and rows:
    rng.choice(rows)['c'] = 'a'
  return rows


def ob(id, fns, impl, cols, by, conds=('c',), base=('a',), include=False,
       **kw):
  conds, base = list(conds), list(base)
  O.Obligation('C09.' + id, P, FNS + fns, SCH, impl,
               lambda rows: frame(rows, by, conds, base, cols, include),
               may_raise=no_base(conds, base), gen=gen, **kw)


for kn, (cls, tmpl, comb) in KINDS.items():
  fn = ['operations.%s.compute_on_children' % cls]
  for sn, by in SPLITS.items():
    for inc in (False, True):
      c1 = lambda f, comb=comb, by=by, conds=('c',), base=('a',): change(
          None, f, comb, conds, base, by)
      ob('%s.%s.%s' % (kn, sn, inc), fn,
         lambda ms, df, cls=cls, by=by, inc=inc: getattr(ms, cls)(
             'c', 'a', A(ms), include_base=inc).compute_on(df, by),
         [(tmpl.format('N1'), c1(m1))], by, include=inc)
    ob('%s_list.%s' % (kn, sn), fn,
       lambda ms, df, cls=cls, by=by: getattr(ms, cls)(
           'c', 'a', ms.MetricList([A(ms), B(ms)])).compute_on(df, by),
       [(tmpl.format('N1'), c1(m1)), (tmpl.format('N2'), c1(m2))], by)
    ob('%s_composite.%s' % (kn, sn), fn,
       lambda ms, df, cls=cls, by=by: getattr(ms, cls)(
           'c', 'a', A(ms) / B(ms)).compute_on(df, by),
       [(tmpl.format('N1 / N2'), c1(lambda g: m1(g) / m2(g)))], by)
    ob('%s_call.%s' % (kn, sn), fn + ['operations.Operation.__call__'],
       lambda ms, df, cls=cls, by=by: (A(ms) | getattr(ms, cls)(
           'c', 'a')).compute_on(df, by), [(tmpl.format('N1'), c1(m1))], by)
    ob('%s_sum.%s' % (kn, sn), fn,
       lambda ms, df, cls=cls, by=by: getattr(ms, cls)(
           'c', 'a', ms.Sum('x')).compute_on(df, by),
       [(tmpl.format('sum(x)'), c1(lambda g: g.sum('x')))], by)
  # two condition columns, tuple baseline
  for sn, by in (('all', []), ('g', ['g'])):
    for inc in (False, True):
      ob('%s_multi.%s.%s' % (kn, sn, inc), fn,
         lambda ms, df, cls=cls, by=by, inc=inc: getattr(ms, cls)(
             ['c', 'h'], ('a', 'b'), A(ms), include_base=inc).compute_on(
                 df, by),
         [(tmpl.format('N1'), change(None, m1, comb, ['c', 'h'], ['a', 'b'],
                                     by))],
         by, ['c', 'h'], ['a', 'b'], inc)
  # a change of another change of a distribution: nesting
  ob('%s_where' % kn, fn,
     lambda ms, df, cls=cls: getattr(ms, cls)(
         'c', 'a', ms.Sum('x'), where='y > 0').compute_on(df, ['g']),
     [(tmpl.format('sum(x)'), change(None, lambda g: g.sum('x'), comb, ['c'],
                                     ['a'], ['g']))], ['g'])
  # filtered: same thing over the filtered rows
  del O.OBS['C09.%s_where' % kn]
  O.Obligation(
      'C09.%s_where' % kn, P, FNS + fn, SCH,
      lambda ms, df, cls=cls: getattr(ms, cls)(
          'c', 'a', A(ms), where='y > 0').compute_on(df, ['g']),
      lambda rows, tmpl=tmpl, comb=comb: frame(
          rows.where(lambda r: r.y > 0), ['g'], ['c'], ['a'],
          [(tmpl.format('N1'), change(None, m1, comb, ['c'], ['a'], ['g']))],
          False),
      may_raise=lambda k, rows: no_base(['c'], ['a'])(
          k, rows.where(lambda r: r.y > 0)), gen=gen)
  O.Obligation(
      'C09.%s_melted' % kn, P, FNS + fn + ['utils.melt'], SCH,
      lambda ms, df, cls=cls: getattr(ms, cls)(
          'c', 'a', ms.MetricList([A(ms), B(ms)])).compute_on(
              df, ['g'], melted=True),
      lambda rows, tmpl=tmpl, comb=comb: melted(
          rows, ['g'], ['c'], ['a'],
          [(tmpl.format('N1'), change(None, m1, comb, ['c'], ['a'], ['g'])),
           (tmpl.format('N2'), change(None, m2, comb, ['c'], ['a'], ['g']))]),
      may_raise=no_base(['c'], ['a']), gen=gen)


def melted(rows, by, conds, base, cols):
  return S.stack([((l,), frame(rows, by, conds, base, [('Value', f)], False))
                  for l, f in cols], ['Metric'] + by + conds, ['Value'])


# ------------------------------------------------------------------ MH
def mh(numer, denom, base, by, strata=('s',), conds=('c',), sel=None):
  """100 (sum_s ka nb/(na+nb) / sum_s kb na/(na+nb) - 1) over the strata that
  the condition and the baseline share."""
  def value(g):
    rows = sel(g.tabwide) if sel else g.tabwide
    gg = sel(g) if sel else g
    gg.keys = g.keys

    def term(s, what):
      # s: rows of one stratum of this slice and condition
      b = rows.at(**{k: g.keys[k] for k in by}).at(
          **dict(zip(conds, base))).at(**{k: s.keys[k] for k in strata})
      ka, na, kb, nb = numer(s), denom(s), numer(b), denom(b)
      w = 1 / (na + nb)
      v = ka * nb * w if what == 'top' else kb * na * w
      return S.given(b.exists(), v)
    top = gg.labels(*strata).sum(lambda s: term(s, 'top'))
    bot = gg.labels(*strata).sum(lambda s: term(s, 'bot'))
    return (top / bot - 1) * 100
  return value


MP = {'x': 'num', 'y': 'pos', 'g': 'key', 'c': 'key', 's': 'key'}
MP2 = dict(MP, t='key')
mhf = ['operations.MH.compute_children', 'operations.MH.compute_on_children',
       'operations.MH.compute_mh', 'operations.MH.check_is_ratio']


def mhob(id, impl, cols, by, include=False, sch=MP, conds=('c',), base=('a',),
         sel=None, n=16, **kw):
  conds, base = list(conds), list(base)

  def mgen(rng, i):
    rows = O.gen_table(sch, rng, i, 12)
    if i % 7 and rows:
      r = rng.choice(rows)
      for c, b in zip(conds, base):
        r[c] = b
    return rows
  O.Obligation('C09.' + id, P, FNS + mhf, sch, impl,
               lambda rows: frame(sel(rows) if sel else rows, by, conds, base,
                                  cols, include),
               may_raise=lambda k, rows: no_base(conds, base)(
                   k, sel(rows) if sel else rows), gen=mgen, n=n, **kw)


sx, sy = lambda g: g.sum('x'), lambda g: g.sum('y')
XP = lambda r: r.x > 0
for sn, by in (('all', []), ('g', ['g'])):
  for inc in (False, True):
    mhob('mh.%s.%s' % (sn, inc),
         lambda ms, df, by=by, inc=inc: ms.MH(
             'c', 'a', 's', A(ms) / B(ms), include_base=inc).compute_on(
                 df, by),
         [('N1 / N2 MH Ratio', mh(m1, m2, 'a', by))], by, inc)
  mhob('mh_sum.%s' % sn,
       lambda ms, df, by=by: ms.MH('c', 'a', 's', ms.Ratio(
           'x', 'y')).compute_on(df, by),
       [('sum(x) / sum(y) MH Ratio', mh(sx, sy, 'a', by))], by)
  mhob('mh_list.%s' % sn,
       lambda ms, df, by=by: ms.MH('c', 'a', 's', ms.MetricList([
           A(ms) / B(ms), B(ms) / A(ms)])).compute_on(df, by),
       [('N1 / N2 MH Ratio', mh(m1, m2, 'a', by)),
        ('N2 / N1 MH Ratio', mh(m2, m1, 'a', by))], by)
  mhob('mh_strata2.%s' % sn,
       lambda ms, df, by=by: ms.MH('c', 'a', ['s', 't'], A(ms) / B(
           ms)).compute_on(df, by),
       [('N1 / N2 MH Ratio', mh(m1, m2, 'a', by, ('s', 't')))], by, sch=MP2)
  mhob('mh_conds2.%s' % sn,
       lambda ms, df, by=by: ms.MH(['c', 't'], ('a', 'b'), 's', A(ms) / B(
           ms)).compute_on(df, by),
       [('N1 / N2 MH Ratio', mh(m1, m2, ('a', 'b'), by, ('s',), ('c', 't')))],
       by, sch=MP2, conds=('c', 't'), base=('a', 'b'))
  for pos in ('op', 'ratio', 'operands'):
    def impl(ms, df, by=by, pos=pos):
      w = lambda p: 'x > 0' if p == pos else None
      r = ms.metrics.CompositeMetric(
          lambda x, y: x / y, '{} / {}',
          [ms.Abstract('N1', ('x',), where=w('operands')),
           ms.Abstract('N2', ('y',), where=w('operands'))], where=w('ratio'))
      return ms.MH('c', 'a', 's', r, where=w('op')).compute_on(df, by)
    mhob('mh_where_%s.%s' % (pos, sn), impl,
         [('N1 / N2 MH Ratio', mh(m1, m2, 'a', by, sel=lambda g: g.where(XP)))],
         by, sel=lambda g: g.where(XP))

  def impl2(ms, df, by=by):
    return ms.MH('c', 'a', 's', ms.MetricList([A(ms) / B(ms), B(ms) / A(ms)],
                                              where='x > 0')).compute_on(df, by)
  mhob('mh_where_list.%s' % sn, impl2,
       [('N1 / N2 MH Ratio', mh(m1, m2, 'a', by, sel=lambda g: g.where(XP))),
        ('N2 / N1 MH Ratio', mh(m2, m1, 'a', by, sel=lambda g: g.where(XP)))],
       by, sel=lambda g: g.where(XP))


# ------------------------------------------------- the same on SQL
sqlalso.also(P, sqlalso.entries('pct*', 'abs*', 'mh*', 'ops_*'), sqlalso.trees(
    'pct_*', 'abs_*', 'mh_*', 'op_of_composite_filters', 'nested_where'))
