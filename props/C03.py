"""C03: a filter is the same as filtering the data first."""
import random

import numpy as np
import pandas as pd

from engine import compare
from engine import obligation as O
from engine import spec as S
from props import C01
from props import catalog as C
from props import sqlalso
from props import sqlcat as Q

P = 'C03'
LEVEL = 'proof'
TECHNIQUE = ('contract-based deductive verification: relational obligations '
             '(metric with a filter against the metric without it on the '
             'filtered table; abstract children for the placement rules) on '
             'symbolically executed real code, discharged by z3; bounded '
             'relational suites for the metrics outside the contracts')
NOTE = ('Filters range over several literal predicates on numeric and label '
        'columns; each acts through DataFrame.query, whose contract is '
        'assumed and replayed. Random and regression metrics are bounded '
        'only.')
FNS = ['metrics.Metric.compute_through', 'metrics.Metric.where',
       'metrics.Metric.add_where', 'metrics.Metric.compute_on']

# filter -> the same condition on rows and on the frame
FILTERS = {
    'gt': ('f > 1', lambda r: r['f'] > 1, lambda d: d[d['f'] > 1]),
    'pair': (['f > 1', 'f < 4 or k == "a"'],
             lambda r: (r['f'] > 1) & ((r['f'] < 4) | (r['k'] == 'a')),
             lambda d: d[(d['f'] > 1) & ((d['f'] < 4) | (d['k'] == 'a'))]),
    'or': ('k == "a" or f >= 2',
           lambda r: (r['k'] == 'a') | (r['f'] >= 2),
           lambda d: d[(d['k'] == 'a') | (d['f'] >= 2)]),
    'two_or': (('f > 3 or k == "b"', 'f < 1 or k != "a"'),
               lambda r: ((r['f'] > 3) | (r['k'] == 'b')) & (
                   (r['f'] < 1) | ~(r['k'] == 'a')),
               lambda d: d[((d['f'] > 3) | (d['k'] == 'b')) & (
                   (d['f'] < 1) | (d['k'] != 'a'))]),
}


def needs(e, cond):
  out = [lambda rows: rows.where(cond).exists()]
  if e.cond:
    base = {'c': 'a'}
    if e.name == 'pct_multi':
      base['h'] = 'b'
    out.append(lambda rows: rows.where(cond).at(**base).exists())
  return out


def gen(e, pred, by):
  def f(rng, i):
    rows = C.table(e, rng, i, list(by) + ['f', 'k'])
    for r in rows:
      r['f'] = rng.choice([0, 1, 2, 2, 3, 4, 5])
      if rng.random() < 0.6:
        r['f'], r['k'] = 5, 'b'
    r = rows[0]
    r['f'], r['k'] = 5, 'b'
    if e.cond:
      r['c'] = 'a'
      if e.name == 'pct_multi':
        r['h'] = 'b'
    return rows
  return f


C.SCH['f'] = 'num'
C.SCH['k'] = 'key'
for n, (name, e) in enumerate(C.CAT.items()):
  if not e.kw or not e.ded or e.unit:
    continue
  for fn, (w, pred, sel) in FILTERS.items():
    for by in ([], ['g']):
      if by and fn in ('or', 'gt'):
        continue
      O.Obligation(
          'C03.%s.%s.%s' % (name, fn, ''.join(by)), P, FNS + e.fns,
          C.schema(e, 'f', 'k', *by),
          lambda ms, df, e=e, by=by, w=w: e.build(ms, where=w).compute_on(
              df, by),
          spec2=lambda ms, df, e=e, by=by, sel=sel: e.build(ms).compute_on(
              sel(df), by),
          needs=needs(e, pred), gen=gen(e, pred, by), n=4)

# ------------------------------------------------ placement in a tree
SCH = {'x': 'num', 'y': 'num', 'f': 'num', 'k': 'key', 'g': 'key', 'c': 'key'}
m1 = lambda g: g.opaque('M1', 'x')
m2 = lambda g: g.opaque('M2', 'y')
fa = lambda r: r['f'] > 1
fb = lambda r: r['k'] == 'a'


def A(ms, **k):
  return ms.Abstract('M1', ('x',), **k)


def B(ms, **k):
  return ms.Abstract('M2', ('y',), **k)


def place(id, build, cols, extra=(), needs=(), fns=(), present=None, by=(),
          **kw):
  O.Obligation(
      'C03.place.' + id, P, FNS + list(fns), SCH,
      lambda ms, df: build(ms).compute_on(df, list(by)),
      lambda rows: S.frame(rows, list(by) + list(extra), cols(rows),
                           present=present),
      needs=needs, gen=tab, n=8, **kw)


def tab(rng, i):
  rows = O.gen_table(SCH, rng, i, 9)
  for r in rows:
    if rng.random() < 0.6:
      r['f'], r['k'] = rng.choice([2, 3]), 'a'
  return rows


ex = lambda *fs: (lambda rows: rows.where(*fs).exists())
CM = ['metrics.CompositeMetric.compute_slices']
ML = ['metrics.MetricList.compute_slices']
OP = ['operations.Operation.compute_slices',
      'operations.Operation.compute_child']
# the filter of a member is its own
place('list_member', lambda ms: ms.MetricList([A(ms, where='f > 1'), B(ms)]),
      lambda rows: [('M1', lambda g: m1(g.where(fa))), ('M2', m2)],
      needs=[ex(fa)], fns=ML)
place('list_both', lambda ms: ms.MetricList(
    [A(ms, where='f > 1'), A(ms), B(ms, where='k == "a"')]),
      lambda rows: [('M1', lambda g: m1(g.where(fa))), ('M1', m1),
                    ('M2', lambda g: m2(g.where(fb)))],
      needs=[ex(fa), ex(fb)], fns=ML)
place('list_nested', lambda ms: ms.MetricList(
    [A(ms, where='f > 1'), B(ms)], where='k == "a"'),
      lambda rows: [('M1', lambda g: m1(g.where(fa, fb))),
                    ('M2', lambda g: m2(g.where(fb)))],
      needs=[ex(fa, fb)], fns=ML)
place('list_list', lambda ms: ms.MetricList(
    [ms.MetricList([A(ms, where='f > 1'), B(ms)], where='k == "a"'),
     A(ms)]),
      lambda rows: [('M1', lambda g: m1(g.where(fa, fb))),
                    ('M2', lambda g: m2(g.where(fb))), ('M1', m1)],
      needs=[ex(fa, fb)], fns=ML)
place('composite', lambda ms: (A(ms, where='f > 1') / B(ms)).set_name('r'),
      lambda rows: [('r', lambda g: m1(g.where(fa)) / m2(g))],
      needs=[ex(fa)], fns=CM)
place('composite2', lambda ms: (
    A(ms, where='f > 1') - A(ms) * A(ms, where='k == "a"')).set_name('r'),
      lambda rows: [('r', lambda g: m1(g.where(fa)) - m1(g) * m1(
          g.where(fb)))], needs=[ex(fa), ex(fb)], fns=CM)


def comp_where(ms):
  m = (A(ms, where='f > 1') / B(ms)).set_name('r')
  return m.add_where('k == "a"')


place('composite_where', comp_where,
      lambda rows: [('r', lambda g: m1(g.where(fa, fb)) / m2(g.where(fb)))],
      needs=[ex(fa, fb)], fns=CM)


def tot(rows, m, *fs):
  return rows.where(*fs).labels('c').sum(m)


place('dist_child', lambda ms: ms.Distribution('c', A(ms, where='f > 1')),
      lambda rows: [('Distribution of M1', lambda g: m1(g.where(fa)) / tot(
          rows, m1, fa))], extra=['c'], needs=[ex(fa)],
      present=lambda g: g.where(fa).exists(),
      fns=OP + ['operations.Distribution'])
place('dist_both', lambda ms: ms.Distribution('c', A(
    ms, where='f > 1'), where='k == "a"'),
      lambda rows: [('Distribution of M1', lambda g: m1(
          g.where(fa, fb)) / tot(rows, m1, fa, fb))], extra=['c'],
      needs=[ex(fa, fb)], present=lambda g: g.where(fa, fb).exists(),
      fns=OP + ['operations.Distribution'])


def change(f, *fs):
  def v(rows):
    return lambda g: f(m1(g.where(*fs)), m1(rows.where(*fs).at(c='a')))
  return v


pc = lambda x, y: (x - y) / y * 100
at_a = lambda *fs: (lambda rows: rows.where(*fs).at(c='a').exists())
nota = lambda *fs: (lambda g: S.all_of(g.where(*fs).exists(),
                                       ~(g.keys['c'] == 'a')))
place('pct_child', lambda ms: ms.PercentChange('c', 'a', A(ms, where='f > 1')),
      lambda rows: [('M1 Percent Change', change(pc, fa)(rows))], extra=['c'],
      needs=[at_a(fa)], present=nota(fa),
      fns=OP + ['operations.PercentChange'])
place('pct_both', lambda ms: ms.PercentChange('c', 'a', A(
    ms, where='f > 1'), where='k == "a"'),
      lambda rows: [('M1 Percent Change', change(pc, fa, fb)(rows))],
      extra=['c'], needs=[at_a(fa, fb)], present=nota(fa, fb),
      fns=OP + ['operations.PercentChange'])
place('pct_diff', lambda ms: (
    ms.PercentChange('c', 'a', A(ms), where='f > 1') - ms.PercentChange(
        'c', 'a', A(ms), where='k == "a"')).set_name('r'),
      lambda rows: [('r', lambda g: S.notnull(g.count(), change(
          pc, fa)(rows)(g) - change(pc, fb)(rows)(g)))], extra=['c'],
      needs=[at_a(fa), at_a(fb), lambda rows: ~rows.where(
          lambda r: ~(r['k'] == 'a')).exists(),
             lambda rows: ~rows.where(lambda r: r['f'] <= 1).exists()],
      present=nota(fa), fns=OP + CM)


# the order and repetition of filters do not matter; add_where conjoins
def addw(ms):
  m = A(ms)
  m.where = 'f > 1'
  m.add_where(['k == "a"', 'f > 1'])
  return m


def addw2(ms):
  return A(ms).add_where('k == "a"').add_where('f > 1').add_where('k == "a"')


def addw3(ms):
  return A(ms, where=('f > 1 or f < 0', 'k == "a"')).add_where('f > 1')


for n, b in (('set', addw), ('chain', addw2), ('dup', addw3), (
    'list', lambda ms: A(ms, where=['k == "a"', 'f > 1', 'k == "a"'])),
             ('one', lambda ms: A(ms, where='f > 1 and k == "a"'))):
  for by in ((), ('g',)):
    place('combine_%s%s' % (n, ''.join(by)), b,
          lambda rows: [('M1', lambda g: m1(g.where(fa, fb)))],
          needs=[ex(fa, fb)], by=by,
          present=lambda g: g.where(fa, fb).exists())


# the text of the filters does not matter
fc = lambda r: r['f'] < 50
fd = lambda r: (r['f'] < 50) & (r['k'] == 'a')
fe = lambda r: (r['f'] < 5) | (r['k'] == 'a')
TEXTS = {
    'pipe': (lambda ms: A(ms, where=('f < 5 | k == "a"', 'f > 1')), fe, fa),
    'pipe2': (lambda ms: A(ms, where=['f < 5|k == "a"', 'f>1']), fe, fa),
    'amp': (lambda ms: A(ms, where=['f < 50 & k == "a"', 'f > 1']), fd, fa),
    'or_amp': (lambda ms: A(ms, where=(
        'f < 50 & k == "a"', 'f < 5 or k == "a"')), fd, fe),
    'prefix': (lambda ms: A(ms, where='f < 5').add_where('f < 50'),
               lambda r: r['f'] < 5),
    'prefix2': (lambda ms: A(ms, where='f < 50').add_where('f < 5'),
                lambda r: r['f'] < 5),
    'contained': (lambda ms: A(ms, where='f < 50').add_where(
        'f < 50 and k == "a"'), fd),
    'contained2': (lambda ms: A(ms, where='f < 50 and k == "a"').add_where(
        ['f < 50', 'f > 1']), fd, fa),
    'not': (lambda ms: A(ms, where=('not f < 5', 'k == "a"')).add_where(
        'not f < 5'), lambda r: ~(r['f'] < 5), fb),
}
for n, (b, *fs) in TEXTS.items():
  place('text_%s' % n, b,
        lambda rows, fs=fs: [('M1', lambda g: m1(g.where(*fs)))],
        needs=[ex(*fs)], fns=['metrics.Metric.add_where'])


# ------------------------------------------------------------ bounded
ATOMS = [('f > 1', lambda d: d.f > 1), ('f < 5', lambda d: d.f < 5),
         ('f < 50', lambda d: d.f < 50), ('f > 1.5', lambda d: d.f > 1.5),
         ('k == "a"', lambda d: d.k == 'a'), ('k != "a"', lambda d: d.k != 'a'),
         ('k == "and"', lambda d: d.k == 'and'),
         ('k in ("a", "b or c")', lambda d: d.k.isin(['a', 'b or c'])),
         ('k not in ["a"]', lambda d: ~d.k.isin(['a'])),
         ('1 < f < 4', lambda d: (d.f > 1) & (d.f < 4)),
         ('g.notnull()', lambda d: d.g.notnull()),
         ('f + h > 4', lambda d: d.f + d.h > 4)]


def predicate(rng, depth=2):
  if not depth or rng.random() < 0.4:
    return rng.choice(ATOMS)
  (a, p), (b, q) = predicate(rng, depth - 1), predicate(rng, depth - 1)
  j = rng.choice([' or ', ' | ', '|', ' and ', ' & '])
  atoms = [t for t, _ in ATOMS]
  a, b = (t if t in atoms and rng.random() < .5 else '(%s)' % t
          for t in (a, b))
  f = (lambda d: p(d) | q(d)) if 'or' in j or '|' in j else (
      lambda d: p(d) & q(d))
  return a + j + b, f


def combos(ms, rng, i):
  pool = [predicate(rng) for _ in range(rng.randint(1, 4))]
  df = pd.DataFrame({'x': [float(2**n) for n in range(24)],
                     'f': [rng.choice([0, 1, 2, 3, 4, 7, 60])
                           for _ in range(24)],
                     'h': [rng.choice([0, 1, 5]) for _ in range(24)],
                     'g': [rng.choice(['g', None]) for _ in range(24)],
                     'k': [rng.choice(['a', 'b', 'and', 'b or c'])
                           for _ in range(24)]})
  used, log = [], []
  first = [rng.choice(pool) for _ in range(rng.randint(0, 2))]
  used += first
  w = [t for t, _ in first]
  w = w[0] if len(w) == 1 and rng.random() < 0.5 else rng.choice(
      [list, tuple])(w) or None
  log.append('where=%r' % (w,))
  form = rng.choice(['init', 'set'])
  how = rng.choice(['sum', 'ratio', 'list', 'dist'])
  m = {'sum': lambda **k: ms.Sum('x', name='x', **k),
       'ratio': lambda **k: ms.Ratio('x', 'h', name='x', **k),
       'list': lambda **k: ms.MetricList([ms.Sum('x', name='x')], **k),
       'dist': lambda **k: ms.Distribution('k', ms.Sum('x'), **k)}[how]
  if form == 'init':
    mm = m(where=w)
  else:
    mm = m(where='f > 1000')
    mm.where = w
  for _ in range(rng.randint(0, 3)):
    extra = [rng.choice(pool) for _ in range(rng.randint(1, 2))]
    used += extra
    a = [t for t, _ in extra]
    a = a[0] if len(a) == 1 and rng.random() < 0.5 else rng.choice(
        [list, tuple])(a)
    log.append('add_where(%r)' % (a,))
    mm = mm.add_where(a)
  mask = pd.Series(True, df.index)
  for _, p in used:
    mask &= p(df)
  if not mask.any():
    return None
  got = mm.compute_on(df)
  want = m().compute_on(df[mask])
  d = C01.compare_values(C01.values(got, []), C01.values(want, []))
  if d:
    raise O.Mismatch('%s: %s' % (how, d), {'filters': log, 'form': form})
  return (how, form, len(used))


O.Suite('C03.combine', P, FNS + ['metrics.Metric.add_where'], combos, 400,
        4000, what='filters given in any form, order and number')

MORE = {
    'model_parts': lambda ms, **k: ms.models.LinearRegression(
        ms.Sum('y', **k), [ms.Sum('x', **k), ms.Sum('w', **k)], 'u'),
    'jk_child': lambda ms, **k: ms.Distribution('c', ms.MetricList(
        [ms.Sum('w', **k), ms.Count('x', **k)])),
    'deep': lambda ms, **k: ms.PercentChange('c', 'a', ms.MetricList(
        [ms.Sum('w') / ms.Count('w'), ms.Mean('w')], **k)),
}


def check(ms, rng, i, e, build, both=False):
  by = [[], ['g'], ['s', 'g']][i % 3]
  by = [c for c in by if c not in e.cols]
  fn = sorted(FILTERS)[i % 4]
  w, pred, sel = FILTERS[fn]
  mul = 2 if by or e.rows[0] >= 20 else 1
  rows = C.table(e, rng, i, list(by) + ['f', 'k'], bool(i % 2) and
                 e.rows[0] < 20, e.rows[0] * mul, e.rows[1] * mul)
  for r in rows:
    if rng.random() < 0.7 or 'f' not in r or r['f'] is None:
      r['f'], r['k'] = 5, 'b'
  df = O.to_df(C.schema(e, 'f', 'k', *by), rows)

  def go(fn):
    np.random.seed(7)
    random.seed(7)
    try:
      return C01.values(fn(), [])
    except Exception as ex:  # pylint: disable=broad-except
      return type(ex).__name__
  got = go(lambda: build(ms, where=w).compute_on(df, by))
  want = go(lambda: build(ms).compute_on(sel(df).reset_index(drop=True), by))
  if isinstance(want, str):
    # undefined on the filtered data; the filtered metric must not invent it
    if not isinstance(got, str):
      raise O.Mismatch('%s where %s: a result although the filtered data '
                       'raises %s' % (e.name, w, want), {'rows': rows})
    return None
  if isinstance(got, str):
    raise O.Mismatch('%s where %s raises %s' % (e.name, w, got),
                     {'rows': rows})
  d = C01.compare_values(got, want)
  if d:
    raise O.Mismatch('%s where %s split by %s: %s' % (e.name, w, by, d),
                     {'rows': rows})
  return (e.name, fn, tuple(by))


for name, e in C.CAT.items():
  if e.kw:
    O.Suite('C03.filter.' + name, P, FNS + e.fns,
            lambda ms, rng, i, e=e: check(ms, rng, i, e, e.build),
            5 if e.ded else 12,
            what='metric with a filter = metric on filtered rows (%s)' % name)
for name, b, base in (('model_parts', MORE['model_parts'], 'linreg'),
                      ('dist_parts', MORE['jk_child'], 'dist_list'),
                      ('deep', MORE['deep'], 'abs_list')):
  e = C.CAT[base]
  cols = {'dist_parts': ['c']}.get(name, [])

  def run(ms, rng, i, e=e, b=b, cols=cols):
    e2 = C.Entry.__new__(C.Entry)
    e2.__dict__.update(e.__dict__)
    e2.cols = list(e.cols) + cols
    return check(ms, rng, i, e2, b)
  O.Suite('C03.parts.' + name, P, FNS + e.fns, run, 12,
          what='all parts filtered = filtered rows (%s)' % name)


# ------------------------------------------------- the same on SQL
sqlalso.also(P, sqlalso.entries('comp_where', 'list_where'), sqlalso.trees(
    *[t for t in Q.TREES if 'where' in t or 'filter' in t or t in (
        'list_global', 'list_both', 'composite_self', 'nth2')]))
