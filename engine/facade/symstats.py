"""scipy.stats distribution functions as uninterpreted functions."""
from engine import terms as T
from engine.facade import sympd
from engine.symctx import Unsupported


def map_cells(f, args):
  """Elementwise over scalars and at most one series/frame."""
  big = [a for a in args if isinstance(a, (sympd.Series, sympd.DataFrame))]
  if not big:
    return sympd.SymNum(f(*[sympd.lift(a) for a in args]))
  if len(big) > 1:
    raise Unsupported('stats on two vectors')
  return big[0]._map(lambda c: f(*[c if a is big[0] else sympd.lift(a)
                                   for a in args]))


class _Dist(object):

  def __init__(self, name):
    self._n = name

  def ppf(self, q, df=None, *a, **k):
    if a or k:
      raise Unsupported('stats options')
    return self._call('ppf', q, df)

  def cdf(self, x, df=None):
    return self._call('cdf', x, df)

  def _call(self, what, x, df):
    sympd.use('scipy.stats.%s.%s' % (self._n, what))
    name = 'fn_%s_%s' % (self._n, what)

    def f(*cells):
      null = T.or_(*[c.null for c in cells])
      return sympd.Cell(null, T.app(name, tuple(c.val for c in cells), 'R'))

    return map_cells(f, [x] + ([] if df is None else [df]))


t = _Dist('t')
norm = _Dist('norm')
chi2 = _Dist('chi2')


def __getattr__(n):
  if n.startswith('__'):
    raise AttributeError(n)
  raise Unsupported('scipy.stats.%s' % n)
