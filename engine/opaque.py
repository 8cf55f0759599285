"""Concrete interpretations of uninterpreted functions, for evaluation."""
import math
import zlib


def _num(v):
  if isinstance(v, bool):
    return 1.5 if v else -0.5
  if isinstance(v, str):
    return (zlib.crc32(v.encode()) % 97) / 10.0
  return float(v)


def opaque_metric(rows):
  """A function of the multiset of rows with no algebraic structure."""
  s = 0.0
  for r in rows:
    h = 1.0
    for i, v in enumerate(r):
      h += (i + 1.3) * _num(v)
    s += h + 0.05 * h * h
  n = len(rows)
  return 3.0 + s + 0.01 * abs(s)**0.5 * n


def opaque_null(rows, name):
  """Whether the value of a metric is missing (only for names in N...)."""
  if name[0] != 'N':
    return False
  off = (zlib.crc32(name.encode()) % 13) / 7.0
  return int(opaque_metric(rows) * 137.035 + off) % 5 == 0


def _quantile(spec):
  import numpy as np
  _, q, interp = spec.split(';')
  return lambda rows, env: float(np.quantile([float(r[0]) for r in rows],
                                             float(q), method=interp)
                                ) if rows else math.nan


class _Opaque(dict):

  def __missing__(self, name):
    return self.get_fn(name)

  def __contains__(self, name):
    return self.get_fn(name) is not None

  def get_fn(self, name):
    if name.startswith('null;'):
      return lambda rows, env: opaque_null(rows, name[5:])
    if name[0] in 'MN':
      off = (zlib.crc32(name.encode()) % 13) / 7.0
      return lambda rows, env: opaque_metric(rows) + off
    if name.startswith('sk;'):
      from engine.facade import symlm
      return symlm.concrete(name)
    if name.startswith('quantile;'):
      return _quantile(name)
    if name == 'nunique':
      return lambda rows, env: len({r[0] for r in rows})
    return None


OPAQUE = _Opaque()


def _powr(x, y):
  x, y = float(x), float(y)
  try:
    r = x**y
  except OverflowError:
    return math.inf
  except ZeroDivisionError:
    return math.inf
  return math.nan if isinstance(r, complex) else r


def _dist(name, what):
  def f(*a):
    from scipy import stats
    return float(getattr(getattr(stats, name), what)(*[float(x) for x in a]))
  return f


UFS = {'fn_log': lambda x: math.log(x) if x > 0 else (
    -math.inf if x == 0 else math.nan), 'fn_exp': lambda x: math.exp(x), 'powr': _powr}
for _n in ('t', 'norm', 'chi2'):
  for _w in ('ppf', 'cdf'):
    UFS['fn_%s_%s' % (_n, _w)] = _dist(_n, _w)


def make_abstract(ms, symbolic):
  """An abstract child metric: an uninterpreted function of the slice's rows.

  Its contract: one value per slice that has rows, depending on nothing but
  the multiset of the slice's rows (columns `cols`).  The value of a metric
  whose name starts with N may be missing.
  """
  import pandas as pd
  from meterstick import metrics

  class Abstract(metrics.Metric):

    def __init__(self, name='M', cols=('x',), where=None, two=False):
      super(Abstract, self).__init__(name, where=where, name_tmpl='{}')
      self.cols = tuple(cols)
      self.fn_name = name

    def compute_slices(self, df, split_by=None):
      if symbolic:
        return _sym(self, df, split_by)
      cols = list(self.cols)
      off = (zlib.crc32(self.fn_name.encode()) % 13) / 7.0

      def f(d):
        rows = list(d[cols].itertuples(index=False, name=None))
        if opaque_null(rows, self.fn_name):
          return math.nan
        return opaque_metric(rows) + off
      if not split_by:
        return f(df)
      r = df.groupby(split_by, observed=True)[cols].apply(f)
      return r if isinstance(r, pd.Series) else pd.Series(
          [], index=r.index, dtype=float)

  def _sym(self, df, split_by):
    from engine import terms as T
    from engine.facade import sympd

    def value(sub):
      parts = []
      for b in sub._blocks:
        if b.cond is T.FALSE:
          continue
        parts.append((b.vars, b.cond, [b.cells[sub._columns.index(c)].val
                                       for c in self.cols], b.mult))
      if len(parts) != 1 or parts[0][3] is not T.ONE:
        raise sympd.Unsupported('abstract metric on a union of tables')
      v, c, xs, _ = parts[0]
      null = T.FALSE
      if self.fn_name[0] == 'N':
        null = T.agg('bopq:null;' + self.fn_name, v, c, *xs)
      return sympd.SymNum(sympd.Cell(null, T.agg('opq:' + self.fn_name, v, c,
                                                 *xs)))
    if not split_by:
      return value(df)
    r = sympd.GroupBy(df, split_by, None)._apply(value)
    return r

  return Abstract
