"""Random metric trees as plain data, so that they can be built again.

A tree is ('leaf', cls, args, kwargs) | ('op', sign, a, b) | ('list', [..], kw)
| ('fn', cls, args, child, kwargs) | a number.  kind(t) tells which index
columns the result adds.
"""

WHERES = [None, None, None, 'y > 0', 'y <= 2', ('w > 1', 'y > 0'),
          'x > 1 or y > 2', 'w > 2']
SIGNS = ['+', '-', '*', '/', '**']


def where(rng):
  w = rng.choice(WHERES)
  return {'where': w} if w else {}


def leaf(rng, robust=False):
  k = rng.randrange(18)
  kw = where(rng)
  if rng.random() < .15:
    kw['name'] = rng.choice(['a', 'b'])
  v = rng.choice('xxw')
  if k in (0, 1):
    return ('leaf', 'Sum', (v,), kw)
  if k == 2:
    return ('leaf', 'Count', (v,), dict(kw, **rng.choice(
        [{}, {'distinct': True}])))
  if k in (3, 4):
    return ('leaf', 'Mean', (v,), dict(kw, **rng.choice(
        [{}, {}, {'weight': 'w'}])))
  if k == 5:
    return ('leaf', 'Max', (v,), kw)
  if k == 6:
    return ('leaf', 'Min', (v,), kw)
  if k == 7:
    return ('leaf', 'Dot', ('x', rng.choice('yw')), dict(kw, **rng.choice(
        [{}, {'normalize': True}])))
  if k in (8, 9):
    return ('leaf', 'Variance', (v,), dict(kw, unbiased=rng.random() < .5))
  if k == 10:
    return ('leaf', 'StandardDeviation', (v,), dict(
        kw, unbiased=rng.random() < .5))
  if k == 11:
    return ('leaf', 'CV', ('w',), dict(kw, unbiased=rng.random() < .5))
  if k == 12:
    return ('leaf', 'Cov', ('x', 'y'), dict(kw, bias=rng.random() < .5))
  if k == 13:
    return ('leaf', 'Correlation', ('x', 'y'), dict(kw, **rng.choice(
        [{}, {'weight': 'w'}])))
  if k == 14:
    kw = {q: z for q, z in kw.items() if q != 'where'} | where(rng)
    return ('leaf', 'Ratio', (v, 'w'), kw)
  if k == 15:
    return ('leaf', 'Quantile', (v, rng.choice([0.25, 0.5, 0.9])), kw)
  if k == 16:
    return ('leaf', 'Quantile', ('x', rng.choice([0.25, 0.5])), dict(
        kw, weight='w'))
  return ('leaf', 'Nth', (v, rng.choice([0, 1, -1]), 'y'), dict(
      kw, ascending=rng.random() < .5))


def scalar(rng, depth):
  """A metric with one column and no index."""
  if depth <= 0 or rng.random() < .5:
    return leaf(rng)
  s = rng.choice(SIGNS)
  if s == '**':
    return ('op', s, ('leaf', 'Count', ('x',), where(rng)), rng.choice([2, .5]))
  if rng.random() < .2:
    a, b = scalar(rng, depth - 1), rng.choice([1, 2, 0.5])
    return ('op', s, a, b) if rng.random() < .5 else ('op', s, b, a)
  return ('op', s, scalar(rng, depth - 1), scalar(rng, depth - 1))


def cols(rng, depth, n=3):
  """A metric with any number of columns and no index."""
  if rng.random() < .6:
    return scalar(rng, depth)
  return ('list', [scalar(rng, depth - 1) for _ in range(rng.randint(1, n))],
          where(rng))


def over(rng, kind, depth, multi=True):
  """An operation whose result has the index columns of kind."""
  kw = where(rng) if rng.random() < .5 else {}
  ch = (cols if multi else scalar)(rng, depth - 1)
  if kind == 'h':
    k = rng.randrange(4)
    if k < 2:
      return ('fn', 'Distribution', ('h',), ch, kw)
    return ('fn', 'CumulativeDistribution', ('h',), ch, dict(
        kw, **rng.choice([{}, {'ascending': False}, {'order': ('b', 'a', 'c')},
                          {'sort_by_values': True}][:3])))
  k = rng.randrange(5)
  if k == 4:
    r = ('leaf', 'Ratio', (rng.choice('xw'), 'w'), {})
    return ('fn', 'MH', ('c', 'a', 's'), r, kw)
  return ('fn', ['PercentChange', 'AbsoluteChange'][k % 2], ('c', 'a'), ch,
          dict(kw, **rng.choice([{}, {}, {'include_base': True}])))


def tree(rng, kind, depth=2):
  """kind: '' no index, 'h', 'c' index columns."""
  if not kind:
    return cols(rng, depth)
  if rng.random() < .2:
    return ('op', rng.choice('+-*'), over(rng, kind, depth, False),
            rng.choice([over(rng, kind, depth, False), 2]))
  return over(rng, kind, depth)


def build(ms, t, memo=None, fresh=None):
  """memo: {repr: metric} shares equal parts (unless fresh() says not to)."""
  if isinstance(t, (int, float)):
    return t
  k = repr(t)
  if memo is not None and k in memo and not (fresh and fresh()):
    return memo[k]
  if t[0] == 'leaf':
    m = getattr(ms, t[1])(*t[2], **t[3])
  elif t[0] == 'op':
    a, b = (build(ms, z, memo, fresh) for z in t[2:])
    m = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b,
         '/': lambda: a / b, '**': lambda: a**b}[t[1]]()
  elif t[0] == 'list':
    m = ms.MetricList([build(ms, z, memo, fresh) for z in t[1]], **t[2])
  else:
    kw = {q: list(v) if q == 'order' else v for q, v in t[4].items()}
    m = getattr(ms, t[1])(*t[2], child=build(ms, t[3], memo, fresh), **kw) if (
        t[1] != 'MH') else ms.MH(*t[2], build(ms, t[3], memo, fresh), **kw)
  if memo is not None:
    memo[k] = m
  return m


def parts(t):
  if isinstance(t, (int, float)):
    return []
  out = [t]
  for z in (t[2:4] if t[0] == 'op' else t[1] if t[0] == 'list' else
            [t[3]] if t[0] == 'fn' else []):
    out += parts(z)
  return out


SCHEMA = {'x': 'num?', 'y': 'num', 'w': 'pos', 'g': 'key', 'h': 'key',
          'c': 'key', 's': 'key', 'u': 'key'}


def table(rng, lo=6, hi=16, nulls=True):
  from engine import obligation as O
  n = rng.randint(lo, hi)
  ys = rng.sample([-3, -2, -1, 0, 0.25, .5, 1, 1.5, 2, 2.5, 3, 4, 5, 6, 7, 8, 9,
                   10, 11, 12], n)
  rows = []
  for j in range(n):
    rows.append({'x': None if nulls and rng.random() < .1 else
                 rng.choice(O.NUMS), 'y': ys[j], 'w': rng.choice(O.POS),
                 'g': rng.choice('ab'), 'h': rng.choice('abc'),
                 'c': rng.choice('abc'), 's': rng.choice('ab'),
                 'u': 'u%d' % rng.randint(1, 5)})
  rows[0]['c'] = 'a'
  return rows


def renamed(rng, t):
  """t with another name for one of its simple metrics."""
  if isinstance(t, (int, float)):
    return t
  if t[0] == 'leaf':
    return t[:3] + (dict(t[3], name=rng.choice(['a', 'b', 'n 1'])),)
  if t[0] == 'op':
    k = rng.choice([2, 3])
    return t[:k] + (renamed(rng, t[k]),) + t[k + 1:]
  if t[0] == 'list':
    k = rng.randrange(len(t[1]))
    return (t[0], t[1][:k] + [renamed(rng, t[1][k])] + t[1][k + 1:], t[2])
  if t[1] == 'MH':
    return t
  return t[:3] + (renamed(rng, t[3]), t[4])


def filters(t, outer=()):
  """The filters under which the leaves are computed."""
  if isinstance(t, (int, float)):
    return []
  w = t[-1].get('where') if isinstance(t[-1], dict) else None
  w = tuple(outer) + ((w,) if isinstance(w, str) else tuple(w or ()))
  out = [w]
  for z in (t[2:4] if t[0] == 'op' else t[1] if t[0] == 'list' else
            [t[3]] if t[0] == 'fn' else []):
    out += filters(z, w)
  return out


def empties(t, df):
  """Whether some filter leaves nothing to compute on."""
  return any(df.query(' & '.join('(%s)' % z for z in w)).x.isna().all()
             if w else df.x.isna().all() for w in filters(t))
