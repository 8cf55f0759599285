"""C10: distributions divide by the slice total and accumulate in order."""
from engine import obligation as O
from engine import spec as S
from engine import terms as T
from props import sqlalso

P = 'C10'
LEVEL = 'proof'
TECHNIQUE = ('contract-based deductive verification: distributions over an '
             'abstract child metric, symbolic execution of the real code, '
             'obligations discharged by z3; replay on real pandas')
NOTE = ('The child is an uninterpreted metric. Cumulative sums are proved with '
        'pandas sort/cumsum contracts (rows identified by their ordering '
        'keys); sorting by values assumes pairwise distinct values.')
SCH = {'x': 'num', 'y': 'num', 'g': 'key', 'c': 'key', 'h': 'key'}
SPLITS = {'all': [], 'g': ['g'], 'gh': ['g', 'h']}
FNS = ['operations.Operation.compute_slices',
       'operations.Operation.compute_child',
       'operations.Distribution.compute_on_children']
m1 = lambda g: g.opaque('N1', 'x')
m2 = lambda g: g.opaque('N2', 'y')


def A(ms):
  return ms.Abstract('N1', ('x',))


def B(ms):
  return ms.Abstract('N2', ('y',))


def ctx(rows, f):
  def v(g):
    g.all = rows
    return f(g)
  return v


def share(m, by, over):
  """Value over the total of the values of the slice's categories."""
  def f(g):
    sl = g.all.at(**{k: g.keys[k] for k in by})
    return m(g) / sl.labels(*over).sum(m)
  return f


def cum(m, by, over, order=None, desc=False, values=False):
  """Sum of the shares of the categories not after this one."""
  def f(g):
    sl = g.all.at(**{k: g.keys[k] for k in by})
    tot = sl.labels(*over).sum(m)

    def before(s):
      if values:
        a, b = m(s), m(g)
        # shares are compared, not values: the total may be negative
        a, b = a / tot, b / tot
        c = (a >= b) if desc else (a <= b)
        return S.SymBool(S.cell(c).val)
      if order is not None:
        o = list(reversed(order)) if desc else list(order)
        return S.SymBool(T.or_(*[
            T.and_(S.cell(s.keys[over[0]] == a).val,
                   S.cell(g.keys[over[0]] == b).val)
            for i, a in enumerate(o) for b in o[i:]]))
      le = T.TRUE
      for k in reversed(over):
        x, y = s.keys[k].term, g.keys[k].term
        if desc:
          x, y = y, x
        le = T.or_(T.lt(x, y), T.and_(T.eq(x, y), le))
      return S.SymBool(le)
    # a share that is undefined (0 of a total of 0) stays undefined
    return S.notnull(m(g) / tot, sl.labels(*over).sum(lambda s: m(s) / tot,
                                                      where=before))
  return f


def listed(by, order):
  def f(g):
    sh = share(m1, by, ['c'])(g)
    return S.SymBool(T.and_(g.exists().term, T.neg(S.cell(sh).null), T.or_(
        *[S.cell(g.keys['c'] == o).val for o in order])))
  return f


def distinct(rng, i):
  rows = O.gen_table(SCH, rng, i, 9)
  for c in ('x', 'y'):
    vs = rng.sample(range(1, 60), len(rows))
    for r, v in zip(rows, vs):
      r[c] = v / 4.0
  return rows


def ob(id, fns, impl, cols, by, over, present=None, **kw):
  O.Obligation('C10.' + id, P, FNS + fns, SCH, impl,
               lambda rows: S.frame(rows, by + over, [
                   (l, ctx(rows, f)) for l, f in cols],
                                    present=present and ctx(rows, present)),
               **kw)


CF = ['operations.CumulativeDistribution.compute_on_children',
      'metrics.Metric.group']
for sn, by in SPLITS.items():
  for on, over in (('c', ['c']), ('ch', ['c', 'h'])):
    if set(over) & set(by):
      continue
    ov = over[0] if len(over) == 1 else over
    ob('dist.%s.%s' % (sn, on), [],
       lambda ms, df, by=by, ov=ov: ms.Distribution(ov, A(ms)).compute_on(
           df, by),
       [('Distribution of N1', share(m1, by, over))], by, over)
    ob('dist_sum.%s.%s' % (sn, on), [],
       lambda ms, df, by=by, ov=ov: ms.Distribution(
           ov, ms.Sum('x')).compute_on(df, by),
       [('Distribution of sum(x)', share(lambda g: g.sum('x'), by, over))],
       by, over)
    ob('dist_list.%s.%s' % (sn, on), [],
       lambda ms, df, by=by, ov=ov: ms.Distribution(ov, ms.MetricList([
           A(ms), B(ms)])).compute_on(df, by),
       [('Distribution of N1', share(m1, by, over)),
        ('Distribution of N2', share(m2, by, over))], by, over)
    for desc in (False, True):
      ob('cum.%s.%s.%s' % (sn, on, desc), CF,
         lambda ms, df, by=by, ov=ov, d=desc: ms.CumulativeDistribution(
             ov, A(ms), ascending=not d).compute_on(df, by),
         [('Cumulative Distribution of N1', cum(m1, by, over, desc=desc))],
         by, over)
      if sn != 'gh':
        ob('cum_list.%s.%s.%s' % (sn, on, desc), CF,
           lambda ms, df, by=by, ov=ov, d=desc: ms.CumulativeDistribution(
               ov, ms.MetricList([A(ms), B(ms)]),
               ascending=not d).compute_on(df, by),
           [('Cumulative Distribution of N1', cum(m1, by, over, desc=desc)),
            ('Cumulative Distribution of N2', cum(m2, by, over, desc=desc))],
           by, over)
  for desc in (False, True):
    for i, order in enumerate((['b', 'a', 'c'], ['c', 'a'])):
      ob('cum_order%d.%s.%s' % (i, sn, desc), CF,
         lambda ms, df, by=by, d=desc, order=order: ms.CumulativeDistribution(
             'c', A(ms), order=order, ascending=not d).compute_on(df, by),
         [('Cumulative Distribution of N1', cum(m1, by, ['c'], order, desc))],
         by, ['c'], present=listed(by, order))
    ob('cum_values.%s.%s' % (sn, desc), CF,
       lambda ms, df, by=by, d=desc: ms.CumulativeDistribution(
           'c', A(ms), sort_by_values=True, ascending=not d).compute_on(
               df, by),
       [('Cumulative Distribution of N1', cum(m1, by, ['c'], desc=desc,
                                              values=True))], by, ['c'], gen=distinct)
    ob('cum_values_list.%s.%s' % (sn, desc), CF,
       lambda ms, df, by=by, d=desc: ms.CumulativeDistribution(
           'c', ms.MetricList([A(ms), B(ms)]), sort_by_values=True,
           ascending=not d).compute_on(df, by),
       [('Cumulative Distribution of N1', cum(m1, by, ['c'], desc=desc,
                                              values=True)),
        ('Cumulative Distribution of N2', cum(m2, by, ['c'], desc=desc,
                                              values=True))], by, ['c'], gen=distinct)


# ------------------------------------------------- the same on SQL
sqlalso.also(P, sqlalso.entries('dist*', 'cumdist*', 'pct_of_dist'),
             sqlalso.trees('dist_*', 'cumdist_*', 'pct_cumdist', 'list_of_ops'))
