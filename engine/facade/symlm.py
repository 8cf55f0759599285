"""Contracts of sklearn.linear_model: a fit is a function of the rows.

fit(X, y) gives coef_ and intercept_ that depend on nothing but the parameters
and the multiset of the rows (x1, ..., xk, y); the values themselves are
uninterpreted.  Missing values are rejected by sklearn (ValueError); here the
coefficients of such a fit are missing.
"""
from engine import symctx
from engine import terms as T
from engine.facade import sympd
from engine.facade.sympd import Cell, Series, DataFrame, SymNum, Unsupported


def _param(v):
  return repr(v)


class _Linear(object):
  params = ()
  defaults = {}

  def __init__(self, *args, **kw):
    p = dict(self.defaults)
    if args:
      raise Unsupported('positional parameters of %s' % type(self).__name__)
    for k, v in kw.items():
      if k in p:
        p[k] = v
      elif k not in self.ignored:
        raise Unsupported('%s(%s)' % (type(self).__name__, k))
    self._p = p
    self.fit_intercept = p['fit_intercept']

  ignored = ('copy_X', 'max_iter', 'tol', 'solver', 'random_state',
             'warm_start', 'selection', 'precompute', 'n_jobs', 'positive')

  @property
  def tag(self):
    return 'sk;%s;%s' % (type(self).__name__, ';'.join(
        '%s=%s' % (k, _param(v)) for k, v in sorted(self._p.items())))

  def fit(self, x, y):
    sympd.use('sklearn %s.fit' % type(self).__name__)
    if not isinstance(x, DataFrame) or not isinstance(y, Series):
      raise Unsupported('fit of %s, %s' % (type(x), type(y)))
    d = sympd.concat([x, y.to_frame('y')], axis=1)
    blocks = [b for b in d._blocks if b.cond is not T.FALSE]
    if len(blocks) != 1 or blocks[0].mult is not T.ONE:
      raise Unsupported('fit of a union of tables')
    b = blocks[0]
    ctx = symctx.CTX
    null = T.FALSE
    for c in b.cells:
      if c.null is not T.FALSE and not ctx.prover.prove(
          ctx.hyps + [b.cond], T.neg(c.null)):
        # sklearn raises ValueError; here there is no value
        null = T.or_(null, T.exists(b.vars, T.and_(b.cond, c.null)))
    vals = [c.val for c in b.cells]
    # two aligned frames: a row of one without the other is missing
    k = len(x._columns)

    def value(what):
      return SymNum(Cell(null, T.agg('opq:%s;%s' % (self.tag, what), b.vars,
                                        b.cond, *vals)))
    self.coef_ = sympd.Vec([value('coef%d' % i) for i in range(k)])
    self.intercept_ = value('intercept') if self.fit_intercept else 0.0
    return self


class LinearRegression(_Linear):
  defaults = {'fit_intercept': True}


class Ridge(_Linear):
  defaults = {'fit_intercept': True, 'alpha': 1.0}


class Lasso(_Linear):
  defaults = {'fit_intercept': True, 'alpha': 1.0}


class ElasticNet(_Linear):
  defaults = {'fit_intercept': True, 'alpha': 1.0, 'l1_ratio': .5}


def concrete(name):
  """Interpretation of 'sk;...' for the evaluation of specifications."""
  import numpy as np
  parts = name.split(';')
  cls, what = parts[1], parts[-1]
  p = dict(x.split('=') for x in parts[2:-1])
  p = {k: eval(v) for k, v in p.items()}  # pylint: disable=eval-used

  def f(rows, env):
    if not rows:
      return float('nan')
    a = np.array([[float(v) for v in r] for r in rows])
    if np.isnan(a).any():
      return float('nan')
    from sklearn import linear_model
    m = getattr(linear_model, cls)(**p).fit(a[:, :-1], a[:, -1])
    coef, b0 = m.coef_, m.intercept_
    return float(b0) if what == 'intercept' else float(coef[int(what[4:])])
  return f
