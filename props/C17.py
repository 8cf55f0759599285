"""C17: diversity measures are functions of the shares of a slice."""
import math
from fractions import Fraction

import numpy as np
import pandas as pd

from engine import compare
from engine import obligation as O
from engine import spec as S
from engine import terms as T
from engine.facade import sympd
from props import C05
from props import trees
from props import sqlalso

P = 'C17'
LEVEL = 'proof'
TECHNIQUE = ('contract-based deductive verification: concentration, entropy, '
             'top-k share and number of largest categories over an abstract '
             'child metric equal their formulas on the shares, for all '
             'tables, on symbolically executed real code, discharged by z3; '
             'bounded suites for ties, zero shares and rounding')
NOTE = ('The child is an uninterpreted metric. Proofs about order (top-k, '
        'N(xx)) assume pairwise distinct values in a slice; ties, zeros and '
        'floating-point rounding are compared on generated tables. N(xx) '
        'counts a share as reached when it is within 1e-9.')
FNS = ['operations.Distribution.compute_on_children',
       'operations.Operation.compute_slices', 'metrics.Metric.group',
       'diversity.DiversityBase.to_dataframe']
SCH = {'x': 'num', 'y': 'num', 'g': 'key', 'c': 'key', 'h': 'key'}
SPLITS = {'all': [], 'g': ['g'], 'gh': ['g', 'h'], 'hg': ['h', 'g']}
m1 = lambda g: g.opaque('N1', 'x')
m2 = lambda g: g.opaque('N2', 'y')


def A(ms):
  return ms.Abstract('N1', ('x',))


def B(ms):
  return ms.Abstract('N2', ('y',))


def measure(fn, m, by, over):
  """fn(share(s), labels) summarises the shares of the slice g."""
  def f(g):
    labels = g.labels(*over)
    tot = labels.sum(m)
    share = lambda s: m(s) / tot
    v = fn(share, labels)
    if by and hasattr(fn, 'some'):
      # Always true, as there is a largest one in every finite set.
      v = S.cond(fn.some(share, labels), v, S.NULL)
    return v
  return f


def some(ms, over, fn):
  def f(g):
    labels = g.labels(*over)
    out = []
    for m in ms:
      tot = labels.sum(m)
      out.append(fn.some(lambda s: m(s) / tot, labels))
    return S.any_of(*out)
  return f


def hhi(share, labels):
  return labels.sum(lambda s: share(s) * share(s))


def log(x):
  c = S.cell(x)
  return S.SymNum(sympd.cell_fn('log', c))


def entropy(share, labels):
  return labels.sum(lambda s: -(share(s) * log(share(s))))


def top(k):
  def few(share, labels, s):
    n = labels.count(where=lambda q: S.given_true(share(q) > share(s)))
    return n < k

  def f(share, labels):
    return labels.sum(share, where=lambda s: few(share, labels, s))
  # Every slice has a largest category, or one without a share.
  f.some = lambda share, labels: labels.count(
      where=lambda s: S.any_of(S.missing(share(s)), few(share, labels, s))) > 0
  return f


def nxx(level):
  def f(share, labels):
    def short(s):
      upto = labels.sum(share, where=lambda q: S.given_true(
          share(q) >= share(s)))
      return S.both(upto < level - 1e-9, share(s))
    return labels.count(where=short) + 1
  return f


MEASURES = {
    'HHI': (lambda ms, ov, c: ms.HHI(ov, c), 'HHI of {}', hhi),
    'Entropy': (lambda ms, ov, c: ms.Entropy(ov, c), 'Entropy of {}',
                entropy),
}
for _k in (1, 2, 3):
  MEASURES['TopK%d' % _k] = (lambda ms, ov, c, k=_k: ms.TopK(ov, k, c),
                             "Top-%d's share of {}" % _k, top(_k))
for _l, _n in ((.5, '50'), (.25, '25'), (.9, '90')):
  MEASURES['Nxx%s' % _n] = (lambda ms, ov, c, l=_l: ms.Nxx(ov, l, c),
                            'N(%s) of {}' % _n, nxx(_l))


def distinct(rng, i):
  rows = O.gen_table(SCH, rng, i, 9)
  for c in ('x', 'y'):
    # sums of different rows differ
    vs = rng.sample(range(len(rows)), len(rows))
    for r, v in zip(rows, vs):
      r[c] = 2.0**v / 4
  return rows


for _n, (_make, _t, _fn) in MEASURES.items():
  for _sn, _by in SPLITS.items():
    for _on, _over in (('c', ['c']), ('ch', ['c', 'h'])):
      if set(_over) & set(_by):
        continue
      _ov = _over[0] if len(_over) == 1 else _over
      for _kind, _child, _cols in (
          ('one', A, [('N1', m1)]),
          ('sum', lambda ms: ms.Sum('x'), [('sum(x)', lambda g: g.sum('x'))]),
          ('list', lambda ms: ms.MetricList([A(ms), B(ms)]),
           [('N1', m1), ('N2', m2)])):
        O.Obligation(
            'C17.%s.%s.%s.%s' % (_n, _kind, _sn, _on), P,
            FNS + ['diversity.%s.compute_on_children' % _n.rstrip('0123456789'
                                                                  )], SCH,
            lambda ms, df, make=_make, ov=_ov, child=_child, by=_by: make(
                ms, ov, child(ms)).compute_on(df, by),
            lambda rows, by=_by, over=_over, cols=_cols, t=_t, fn=_fn:
                S.frame(rows, by, [(t.format(l), measure(fn, m, by, over))
                                   for l, m in cols],
                        some([m for _, m in cols], over, fn)
                        if hasattr(fn, 'some') else None),
            gen=distinct, n=8)


# ---------------------------------------------------------------- bounded --

def exact(v):
  return None if v is None or v != v else Fraction(v)


def oracle(kind, arg, values):
  """The measure of the exact values of the categories; None if undefined."""
  vs = [v for v in values if v is not None]
  tot = sum(vs)
  if not vs or tot == 0:
    return None
  ss = sorted((v / tot for v in vs), reverse=True)
  if kind == 'HHI':
    return float(sum(s * s for s in ss))
  if kind == 'Entropy':
    return -sum(float(s) * math.log(s) for s in ss if s > 0)
  if kind == 'TopK':
    return float(sum(ss[:arg]))
  n, run = 0, Fraction(0)
  for s in ss:
    if run >= Fraction(str(arg)) - Fraction(1, 10**9):
      break
    n, run = n + 1, run + s
  return float(max(n, 1))


CHILD = {
    'sum': (lambda ms: ms.Sum('x'), ['sum(x)'], ['sum x']),
    'count': (lambda ms: ms.Count('x'), ['count(x)'], ['count x']),
    'mean': (lambda ms: ms.Mean('y'), ['mean(y)'], ['mean y']),
    'max': (lambda ms: ms.Max('y'), ['max(y)'], ['max y']),
    'list': (lambda ms: ms.MetricList([ms.Sum('x'), ms.Mean('y')]),
             ['sum(x)', 'mean(y)'], ['sum x', 'mean y']),
    'list3': (lambda ms: ms.MetricList([ms.Mean('y'), ms.Count('x'),
                                        ms.Sum('y')]),
              ['mean(y)', 'count(x)', 'sum(y)'],
              ['mean y', 'count x', 'sum y']),
    'ratio': (lambda ms: ms.Sum('x') / ms.Count('x'), ['sum(x) / count(x)'],
              ['mean x']),
    'where': (lambda ms: ms.Sum('x', where='h != "a"'), ['sum(x)'],
              ['sum x h']),
}


def stat(how, rows):
  fn, c = how.split()[:2]
  if how.endswith(' h'):
    rows = [r for r in rows if r['h'] != 'a']
    if not rows:
      return None
  vs = [exact(r[c]) for r in rows]
  vs = [v for v in vs if v is not None]
  if fn == 'sum':
    return sum(vs, Fraction(0))
  if fn == 'count':
    return Fraction(len(vs))
  if not vs:
    return None
  return max(vs) if fn == 'max' else sum(vs) / len(vs)


SH = [.5, .25, .9, .8, 1, .1, .3, .75, .99, .6, .2, .35]
VALUES = {
    'few': [0.0, 1.0, 2.0, 3.0],
    'ones': [1.0],
    'tenths': [.1, .2, .3, .1, .1],
    'sparse': [0.0, 0.0, 0.0, 1.0, 4.0],
    'wide': [1.0, 1e3, 1e6, 3.5],
    'null': [1.0, 2.0, None, None, 0.0],
}
CATS = ['k%02d' % i for i in range(12)]
BYS = [[], ['g'], ['g', 'c'], ['c', 'g'], ['c']]


def instance(rng):
  pool = VALUES[rng.choice(sorted(VALUES))]
  cats = CATS[:rng.choice([1, 2, 3, 5, 10, 12])]
  if rng.random() < .3:
    cats = cats + ['a']
  gs = 'AB'[:rng.randint(1, 2)]
  cs = ['p', 'q', 'a'][:rng.randint(1, 3)]
  rows = []
  dense = rng.random() < .4
  for g in gs:
    for c in cs:
      for h in (cats if dense else rng.sample(cats, rng.randint(
          1, len(cats)))):
        for _ in range(1 if dense else rng.randint(1, 2)):
          rows.append({'g': g, 'c': c, 'h': h, 'x': rng.choice(pool),
                       'y': rng.choice(pool)})
  rng.shuffle(rows)
  return rows


def run(ms, rng, i):
  kind = ['HHI', 'Entropy', 'TopK', 'Nxx'][i % 4]
  rows = instance(rng)
  arg = rng.randint(1, 6) if kind == 'TopK' else rng.choice(SH)
  ck = rng.choice(sorted(CHILD))
  make, _, hows = CHILD[ck]
  by = rng.choice(BYS)
  over = rng.choice([['h'], ['h', 'c'], ['c', 'h'], ['h', 'g']])
  if set(over) & set(by):
    return None
  ov = over[0] if len(over) == 1 else over
  where = rng.choice([None, None, None, 'c == "p"'])
  case = {'measure': kind, 'arg': arg, 'child': ck, 'by': by, 'over': over,
          'where': where, 'rows': rows}
  kw = (ov,) if kind in ('HHI', 'Entropy') else (ov, arg)
  op = getattr(ms, kind)(*kw)
  m = op(make(ms)) if rng.random() < .3 else getattr(ms, kind)(*kw, make(ms))
  if where:
    m.add_where(where)
  keep = [r for r in rows if not where or r['c'] == 'p']
  if not keep or ck == 'where' and all(r['h'] == 'a' for r in keep):
    return None
  df = pd.DataFrame(rows, columns=['g', 'c', 'h', 'x', 'y'])
  for c in ('x', 'y'):
    df[c] = df[c].astype(float)
  try:
    got = C05.quiet(lambda: m.compute_on(df, by or None))
  except Exception as e:
    raise O.Mismatch('raises %s: %s' % (type(e).__name__, str(e)[:200]), case)
  if got.shape[1] != len(hows):
    raise O.Mismatch('columns %s' % list(got.columns), case)
  slices = {}
  for r in keep:
    slices.setdefault(tuple(r[c] for c in by), []).append(r)
  seen = {}
  for pos, (k, row) in enumerate(got.iterrows()):
    k = (k if isinstance(k, tuple) else (k,)) if by else ()
    if k in seen:
      raise O.Mismatch('slice %s twice' % (k,), case)
    seen[k] = row
  if set(seen) - set(slices):
    raise O.Mismatch('slice %s is not in the data' % (
        sorted(set(seen) - set(slices)),), case)
  n = 0
  for k, rs in slices.items():
    cats = {}
    for r in rs:
      cats.setdefault(tuple(r[c] for c in over), []).append(r)
    for p, how in enumerate(hows):
      want = oracle(kind, arg, [stat(how, v) for v in cats.values()])
      if want is None:
        continue
      if k not in seen:
        raise O.Mismatch('slice %s is missing' % (k,), case)
      n += 1
      v = float(seen[k].iloc[p])
      if not abs(v - want) <= 1e-7 * max(1, abs(want)):
        raise O.Mismatch('%s at %s is %s, expected %s' % (
            got.columns[p], k, v, want), case)
  return kind if n else None


O.Suite('C17.exact', P, FNS + ['diversity.%s.compute_on_children' % c for c in
                               ('HHI', 'Entropy', 'TopK', 'Nxx')], run, 900,
        24000, what='ties, zero shares, missing values, equal categories, '
        'categories absent from slices, more k than categories; against exact '
        'rational shares')


def reject(ms, rng, i):
  """Arguments without meaning are rejected."""
  bad = [lambda: ms.TopK('h', .5), lambda: ms.TopK('h', '2'),
         lambda: ms.Nxx('h', 0), lambda: ms.Nxx('h', 1.5),
         lambda: ms.Nxx('h', -.1)]
  f = bad[i % len(bad)]
  try:
    f()
  except ValueError:
    return 'rejected'
  raise O.Mismatch('accepted', {'i': i % len(bad)})


O.Suite('C17.reject', P, ['diversity.TopK.__init__', 'diversity.Nxx.__init__'],
        reject, 5, 5, what='k not an integer, share outside (0, 1]')


# ------------------------------------------------- the same on SQL
sqlalso.also(P, sqlalso.entries('hhi*', 'entropy', 'topk', 'nxx'),
             sqlalso.trees('hhi_*', 'entropy_*', 'topk_*', 'nxx_*', 'pct_hhi',
                           'pct_topk', 'pct_nxx', 'jk_hhi'))
