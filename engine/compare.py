"""Result equality: structural part and proof obligations / concrete part."""
import math
from fractions import Fraction

from engine import terms as T
from engine.facade import sympd


class Raised(object):
  """A path on which the code raised."""

  def __init__(self, exc):
    self.kind = type(exc).__name__
    self.exc = exc

  def __repr__(self):
    return 'raises %s(%s)' % (self.kind, str(self.exc)[:120])


def norm_label(x):
  if isinstance(x, tuple):
    return tuple(norm_label(i) for i in x)
  return x


def shape(res):
  """Structure that must agree exactly."""
  if isinstance(res, sympd.DataFrame):
    return ('DataFrame', tuple(res._names), tuple(map(norm_label,
                                                      res._columns)),
            tuple(res._colnames))
  if isinstance(res, sympd.Series):
    return ('Series', tuple(res._names), res.name)
  if isinstance(res, Raised):
    return ('raises', res.kind)
  if isinstance(res, (list, tuple)):
    return ('list',) + tuple(shape(r) for r in res)
  if isinstance(res, sympd.SymNum) or sympd.is_scalar(res):
    return ('scalar',)
  return ('object', type(res).__name__)


def generic_key(frames):
  """A generic index tuple for comparing frames block by block."""
  n = None
  sorts = None
  for f in frames:
    for b in f._blocks:
      s = [i.sort if i.op != 'klit' else 'K' for i in b.idx]
      if sorts is None:
        sorts = s
      elif len(sorts) != len(s):
        return None
      else:
        sorts = [x if x == y else None for x, y in zip(sorts, s)]
  if sorts is None or None in sorts:
    return None
  return [T.fresh('key', s) for s in sorts]


def at_key(f, ks):
  """(presence, cells, [presence per block], mult ok) of frame f at key ks."""
  pres, parts = [], []
  for b in f._blocks:
    b = b.fresh()
    nb = b.restrict(T.and_(*[T.eq(i, k) for i, k in zip(b.idx, ks)]))
    if nb.cond is T.FALSE:
      continue
    if nb.vars:
      # not determined by the key: several rows may share it
      return None
    parts.append(nb)
  cells = None
  for nb in reversed(parts):
    if cells is None:
      cells = list(nb.cells)
    else:
      cells = [sympd.ite_cell(nb.cond, a, b) for a, b in zip(nb.cells, cells)]
  return T.or_(*[p.cond for p in parts]), cells, [p.cond for p in parts]


def obligations(a, b, opts):
  """Yields (name, hyps, goal) for a == b; raises Structural on mismatch."""
  sa, sb = shape(a), shape(b)
  if opts.get('labels', True):
    if sa != sb:
      raise Structural('shape %s, expected %s' % (sa, sb))
  elif sa[0] != sb[0] or (len(sa) > 2 and len(sa[1]) != len(sb[1])):
    raise Structural('shape %s, expected %s' % (sa, sb))
  if isinstance(a, Raised):
    return
  if isinstance(a, (list, tuple)):
    for n, (x, y) in enumerate(zip(a, b)):
      for nm, h, g in obligations(x, y, opts):
        yield '%d.%s' % (n, nm), h, g
    return
  if not isinstance(a, (sympd.DataFrame, sympd.Series)):
    if sa[0] == 'object':
      if a != b and a is not b:
        raise Structural('object %r, expected %r' % (a, b))
      return
    x, y = sympd.lift(a), sympd.lift(b)
    if not opts.get('both_defined'):
      yield 'null', [], T.iff(x.null, y.null)
    if x.val.sort != y.val.sort:
      raise Structural('kind of value')
    yield 'value', [T.neg(x.null), T.neg(y.null)], T.eq(x.val, y.val)
    return
  na = len(a._columns) if isinstance(a, sympd.DataFrame) else 1
  nb = len(b._columns) if isinstance(b, sympd.DataFrame) else 1
  if na != nb:
    raise Structural('%d columns, expected %d' % (na, nb))
  ks = generic_key([a, b])
  if ks is None:
    raise sympd.Unsupported('incomparable index kinds')
  ra, rb = at_key(a, ks), at_key(b, ks)
  if ra is None or rb is None:
    raise sympd.Unsupported('index does not determine the row')
  if opts.get('absent'):
    # a row all of whose values are missing may be absent
    ra, rb = [(T.and_(p, T.or_(*[T.neg(c.null) for c in cs or []])), cs, ps)
              for p, cs, ps in (ra, rb)]
  for who, r in (('result', ra), ('spec', rb)):
    for i in range(len(r[2])):
      for j in range(i):
        yield 'unique[%s]' % who, [], T.neg(T.and_(r[2][i], r[2][j]))
  if opts.get('rows', True):
    yield 'rows', [], T.iff(ra[0], rb[0])
  if ra[0] is T.FALSE:
    return
  both = [ra[0]] + ([] if opts.get('rows', True) else [rb[0]])
  labels = a._columns if isinstance(a, sympd.DataFrame) else [a.name]
  for l, x, y in zip(labels, ra[1], rb[1]):
    if not opts.get('both_defined'):
      yield 'null[%s]' % (l,), both, T.iff(x.null, y.null)
    if x.val.sort != y.val.sort:
      x = sympd.Cell(x.null, sympd._asnum(x.val))
      y = sympd.Cell(y.null, sympd._asnum(y.val))
    yield 'value[%s]' % (l,), both + [T.neg(x.null), T.neg(y.null)], T.eq(
        x.val, y.val)


class Structural(Exception):
  pass


# ------------------------------------------------------------------ concrete
def materialize(res, env):
  """Evaluates a symbolic result on a concrete table."""
  if isinstance(res, (list, tuple)):
    return [materialize(r, env) for r in res]
  if isinstance(res, sympd.SymNum) or sympd.is_scalar(res):
    c = sympd.lift(res)
    return {'kind': 'scalar', 'rows': [((), [_cv(c, env, {})])]}
  if isinstance(res, Raised):
    return {'kind': 'raises', 'type': res.kind}
  rows = []
  for b in res._blocks:
    for asg in T._assignments(list(b.vars), env, b.cond):
      if T.ev(b.cond, env, asg):
        m = T.ev(b.mult, env, asg)
        idx = tuple(_iv(T.ev(i, env, asg) if not (
            i.op == 'app' and i.args[0] == 'rid') else 0) for i in b.idx)
        for _ in range(int(m)):
          rows.append((idx, [_cv(c, env, asg) for c in b.cells]))
  d = {'kind': 'DataFrame' if isinstance(res, sympd.DataFrame) else 'Series',
       'names': list(res._names), 'rows': rows}
  if d['kind'] == 'DataFrame':
    d['columns'] = [norm_label(c) for c in res._columns]
    d['colnames'] = list(res._colnames)
  else:
    d['name'] = res.name
  return d


def _iv(v):
  if isinstance(v, Fraction):
    return int(v) if v.denominator == 1 else float(v)
  return v


def _cv(c, env, asg):
  if T.ev(c.null, env, asg):
    return None
  v = T.ev(c.val, env, asg)
  if isinstance(v, Fraction):
    return float(v)
  if isinstance(v, float) and math.isnan(v):
    return None
  return v


def from_real(res):
  """Normal form of a real pandas result."""
  import numpy as np
  import pandas as pd

  def val(v):
    if isinstance(v, (np.bool_, bool)):
      return bool(v)
    if isinstance(v, (np.integer, int)):
      return float(v)
    if isinstance(v, (np.floating, float)):
      return None if math.isnan(v) else float(v)
    if v is None or v is pd.NA:
      return None
    return v

  def lab(v):
    if isinstance(v, tuple):
      return tuple(lab(i) for i in v)
    if isinstance(v, np.generic):
      v = v.item()
    if isinstance(v, float) and math.isfinite(v) and v == int(v):
      return int(v)
    return v

  if isinstance(res, (list, tuple)):
    return [from_real(r) for r in res]
  if isinstance(res, pd.DataFrame):
    return {'kind': 'DataFrame', 'names': list(res.index.names),
            'columns': [lab(c) for c in res.columns],
            'colnames': list(res.columns.names),
            'rows': [(tuple(lab(i) for i in (k if isinstance(k, tuple) else (
                k,))), [val(x) for x in r])
                     for k, r in zip(res.index, res.values.tolist())]}
  if isinstance(res, pd.Series):
    return {'kind': 'Series', 'names': list(res.index.names), 'name': res.name,
            'rows': [(tuple(lab(i) for i in (k if isinstance(k, tuple) else (
                k,))), [val(x)]) for k, x in zip(res.index, res.tolist())]}
  if isinstance(res, Raised):
    return {'kind': 'raises', 'type': res.kind}
  return {'kind': 'scalar', 'rows': [((), [val(res)])]}


def close(x, y, tol=1e-7):
  if x is None or y is None:
    return x is None and y is None
  if isinstance(x, (bool, str)) or isinstance(y, (bool, str)):
    return x == y or (isinstance(x, bool) and not isinstance(y, str) and
                      float(x) == float(y)) or (
                          isinstance(y, bool) and not isinstance(x, str) and
                          float(x) == float(y))
  if not isinstance(x, (int, float)) or not isinstance(y, (int, float)):
    return x == y
  if math.isinf(x) or math.isinf(y):
    return x == y or (math.isinf(x) and math.isinf(y))
  return abs(x - y) <= tol * (1 + abs(x) + abs(y))


def diff(got, want, opts=None, tol=1e-7):
  """None when equal, else a one-line description."""
  opts = opts or {}
  if isinstance(got, list) or isinstance(want, list):
    if not (isinstance(got, list) and isinstance(want, list) and
            len(got) == len(want)):
      return 'number of results'
    for i, (g, w) in enumerate(zip(got, want)):
      d = diff(g, w, opts, tol)
      if d:
        return 'result %d: %s' % (i, d)
    return None
  if got['kind'] != want['kind']:
    return 'kind %s, expected %s' % (
        got['kind'] if got['kind'] != 'raises' else got,
        want['kind'] if want['kind'] != 'raises' else want)
  if got['kind'] == 'raises':
    return None if got['type'] == want['type'] else 'raises %s, expected %s' % (
        got['type'], want['type'])
  if opts.get('labels', True):
    for k in ('names', 'columns', 'colnames', 'name'):
      if k in want and got.get(k) != want.get(k):
        return '%s %s, expected %s' % (k, got.get(k), want.get(k))
  key = lambda r: repr([str(type(i)) + str(i) for i in r[0]])
  gr, wr = sorted(got['rows'], key=key), sorted(want['rows'], key=key)
  if opts.get('absent') and want['kind'] != 'scalar':
    gr, wr = [[r for r in rs if any(v is not None for v in r[1])]
              for rs in (gr, wr)]
  if [g[0] for g in gr] != [w[0] for w in wr]:
    return 'index %s, expected %s' % ([g[0] for g in gr], [w[0] for w in wr])
  cols = want.get('columns') or [want.get('name')] * 99
  for g, w in zip(gr, wr):
    if len(g[1]) != len(w[1]):
      return 'number of columns'
    for c, x, y in zip(cols, g[1], w[1]):
      if opts.get('both_defined') and (x is None or y is None):
        continue
      if not close(x, y, tol):
        return 'value at %s[%s] is %s, expected %s' % (g[0], c, x, y)
  return None
