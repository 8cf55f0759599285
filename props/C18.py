"""C18: regression models return the optimum of their objective."""
import warnings

import numpy as np

from engine import compare
from engine import obligation as O
from engine import spec as S
from props import C05
from props import C13

P = 'C18'
LEVEL = 'proof'
TECHNIQUE = (
    'contract-based deductive verification: the rows, scaling, intercept and '
    'labels of every model over abstract metrics equal the specification on '
    'top of the contract of the sklearn fit, for all tables, on symbolically '
    'executed real code, discharged by z3; bounded suites check the '
    'optimality conditions of the objective independently of sklearn, also '
    'for coefficients computed from SQL (mixed and magic mode)')
NOTE = (
    'The fit itself is a trusted contract in the proofs: coefficients are an '
    'uninterpreted function of the multiset of rows (missing if a value is). '
    'Logistic regression, the optimality of coefficients and everything '
    'computed by SQL are bounded (well-conditioned generated tables; '
    "Newton's method where plain Newton steps converge).")
FNS = ['models.LinearRegression.__init__', 'models.Ridge.__init__',
       'models.Lasso.__init__', 'models.ElasticNet.__init__',
       'models.Model.compute', 'models.Model.__init__', 'models.Model.__call__',
       'operations.Operation.compute_slices', 'metrics.Metric.compute_slices',
       'metrics.MetricList.compute_slices']
SCH = {'x': 'num', 'y': 'num', 'z': 'num', 'g': 'key', 'h': 'key', 's': 'key'}
SPLITS = {'all': [], 'g': ['g'], 'gs': ['g', 's']}
m1 = lambda g: g.opaque('M1', 'y')
m2 = lambda g: g.opaque('M2', 'x')
m3 = lambda g: g.opaque('M3', 'z')
m4 = lambda g: g.opaque('M4', 'x', 'z')


def A(ms, n):
  return {'M1': lambda: ms.Abstract('M1', ('y',)),
          'M2': lambda: ms.Abstract('M2', ('x',)),
          'M3': lambda: ms.Abstract('M3', ('z',)),
          'M4': lambda: ms.Abstract('M4', ('x', 'z'))}[n]()


def coefficients(cls, params, y, xs, group, intercept, normalize):
  tag = 'sk;%s;%s;' % (cls, ';'.join('%s=%r' % (k, v) for k, v in sorted(
      dict(params, fit_intercept=intercept).items())))

  def parts(g):
    rows = g.labels(*group)
    if not (normalize and intercept):
      return rows, list(xs), None, None
    means = [S.val(rows.mean(x)) for x in xs]
    norms = [S.sqrt(rows.sum(lambda s, x=x, m=m: (x(s) - m) * (x(s) - m)))
             for x, m in zip(xs, means)]
    return rows, [lambda s, x=x, m=m, n=n: (x(s) - m) / n
                  for x, m, n in zip(xs, means, norms)], means, norms

  def coef(i):
    def f(g):
      rows, cols, _, norms = parts(g)
      v = rows.opaque(tag + 'coef%d' % i, *(cols + [y]))
      return v / norms[i] if norms else v
    return f

  def const(g):
    rows, cols, means, norms = parts(g)
    if not norms:
      return rows.opaque(tag + 'intercept', *(cols + [y]))
    v = S.val(rows.mean(y))
    for i, m in enumerate(means):
      v = v - m * coef(i)(g)
    return v
  return const, [coef(i) for i in range(len(xs))]


MODELS = {
    'ols': ('LinearRegression', 'OLS', {}, {}),
    'ridge': ('Ridge', 'Ridge', {'alpha': 1}, {}),
    'ridge3': ('Ridge', 'Ridge', {'alpha': .3}, {'alpha': .3}),
    'lasso': ('Lasso', 'Lasso', {'alpha': .1}, {'alpha': .1}),
    'enet': ('ElasticNet', 'ElasticNet', {'alpha': .2, 'l1_ratio': .7},
             {'alpha': .2, 'l1_ratio': .7}),
}
FEATURES = {'1': ['M2'], '2': ['M2', 'M3'], '3': ['M2', 'M3', 'M4']}
FN = {'M1': m1, 'M2': m2, 'M3': m3, 'M4': m4}


def frame(rows, by, name, const, coefs, intercept, feats):
  cols = [('intercept', const)] if intercept else []
  cols += list(zip(feats, coefs))
  return S.frame(rows, by, [('%s Coefficient: %s' % (name, l), f)
                            for l, f in cols])


def gen(rng, i):
  """Every slice has at least five groups."""
  rows = []
  for g in 'ab'[:rng.randint(1, 2)]:
    for s in 'cd'[:rng.randint(1, 2)]:
      for h in 'pqrstuv'[:rng.randint(5, 7)]:
        for _ in range(rng.randint(1, 2)):
          r = {k: float(rng.randint(-5, 9)) for k in 'xyz'}
          rows.append(dict(r, g=g, s=s, h=h))
  rng.shuffle(rows)
  return rows


def declare(id_, by, title, params, cls, feats, i, n, build, name=None,
            rows_of=None):
  O.Obligation(
      id_, P, FNS, SCH, lambda ms, df: build(ms).compute_on(df, by),
      lambda rows: frame(
          rows_of(rows) if rows_of else rows, by,
          name or '%s(M1 ~ %s)' % (title, ' + '.join(feats)),
          *coefficients(cls, params, m1, [FN[m] for m in feats], ['h'], i, n),
          intercept=i, feats=feats),
      n=4, gen=gen, opts={'both_defined': True})


for _mn, (_cls, _title, _params, _kw) in MODELS.items():
  for _fn, _feats in FEATURES.items():
    for _sn, _by in SPLITS.items():
      for _int, _norm in ((True, False), (False, False), (True, True),
                          (False, True)):
        if _fn != '1' and _sn == 'gs' and _mn != 'ols':
          continue
        declare(
            'C18.%s.%s.%s.%s%s' % (_mn, _fn, _sn, 'i' if _int else 'o',
                                   'n' if _norm else ''),
            _by, _title, _params, _cls, _feats, _int, _norm,
            lambda ms, cls=_cls, f=_feats, i=_int, n=_norm, kw=_kw:
            getattr(ms.models, cls)(
                A(ms, 'M1'), [A(ms, m) for m in f], 'h', fit_intercept=i,
                normalize=n, **kw))
  # built by applying the model to a list; a single feature; a name; a filter
  for _sn, _by in (('all', []), ('g', ['g'])):
    declare('C18.%s.call.%s' % (_mn, _sn), _by, _title, _params, _cls,
            ['M2', 'M3'], True, False,
            lambda ms, cls=_cls, kw=_kw: getattr(ms.models, cls)(
                group_by='h', **kw)(ms.MetricList(
                    [A(ms, 'M1'), A(ms, 'M2'), A(ms, 'M3')])))
    declare('C18.%s.pipe.%s' % (_mn, _sn), _by, _title, _params, _cls,
            ['M2', 'M3'], True, False,
            lambda ms, cls=_cls, kw=_kw: ms.MetricList(
                [A(ms, 'M1'), A(ms, 'M2'), A(ms, 'M3')]) | getattr(
                    ms.models, cls)(group_by=['h'], **kw))
    declare('C18.%s.one.%s' % (_mn, _sn), _by, _title, _params, _cls,
            ['M2'], True, False,
            lambda ms, cls=_cls, kw=_kw: getattr(ms.models, cls)(
                A(ms, 'M1'), A(ms, 'M2'), ['h'], **kw))
    declare('C18.%s.named.%s' % (_mn, _sn), _by, _title, _params, _cls,
            ['M2', 'M3'], True, False,
            lambda ms, cls=_cls, kw=_kw: getattr(ms.models, cls)(
                A(ms, 'M1'), ms.MetricList([A(ms, 'M2'), A(ms, 'M3')]), 'h',
                name='fit', **kw), name='fit')


# ------------------------------------------------------------------ bounded
MAGIC = ['models.Model.compute_through_sql', 'models.get_data',
         'models.get_sufficient_stats_elements', 'models.compute_ridge_coefs',
         'models.compute_coef_for_normalize_ridge',
         'models.construct_matrix_from_elements',
         'models.symmetrize_triangular', 'models.center_x',
         'models.fista_for_elastic_net', 'models.compute_normalized_coef',
         'models.LogisticRegression.compute_on_sql_magic_mode',
         'models.fista_for_logistic_regression', 'models.newtons_method',
         'models.sig_minus_b']
BSCH = {'x': 'num', 'y': 'num', 'z': 'num', 'w': 'pos', 'b': 'num', 'g': 'key',
        'h': 'key', 's': 'key'}
LEAVES = {
    'x': ("Sum('x')", 'sum(x)', lambda r: sum(v['x'] for v in r)),
    'z': ("Mean('z')", 'mean(z)', lambda r: sum(v['z'] for v in r) / len(r)),
    'w': ("Max('w')", 'max(w)', lambda r: max(v['w'] for v in r)),
    'r': ("Ratio('x', 'w')", 'sum(x) / sum(w)',
          lambda r: sum(v['x'] for v in r) / sum(v['w'] for v in r)),
    'f': ("Sum('z', where='w > 1')", 'sum(z)',
          lambda r: sum(v['z'] for v in r if v['w'] > 1)),
}
TARGETS = {
    'y': ("Sum('y')", 'sum(y)', lambda r: sum(v['y'] for v in r)),
    'm': ("Mean('y')", 'mean(y)', lambda r: sum(v['y'] for v in r) / len(r)),
}
CLASS = ("Max('b')", 'max(b)', lambda r: max(v['b'] for v in r))


def table(rng, by, classes):
  rows = []
  beta = [rng.uniform(-1, 1) for _ in range(3)]
  for g in 'ab' if by else 'a':
    for s in 'kl' if len(by) > 1 else 'k':
      n = rng.randint(12, 24)
      for h in range(n):
        for j in range(rng.randint(1, 2)):
          x, z = rng.uniform(-2, 2), rng.uniform(-2, 2)
          w = rng.choice([1., 1.5, 2., 3.] if j else [1.5, 2.])
          mu = beta[0] * x + beta[1] * z + beta[2] * w
          y = mu + rng.gauss(0, 1)
          rows.append({'x': round(x, 3), 'z': round(z, 3), 'w': w,
                       'y': round(y, 3), 'g': g, 's': s, 'h': 'h%d' % h})
      for c in range(classes):
        # every class has a group of its own
        rows[-1 - c]['b0'] = float(c)
  for r in rows:
    r['b'] = r.pop('b0', float(rng.randrange(classes)))
  rng.shuffle(rows)
  return rows


def design(rows, by, group, target, feats):
  """{slice: (X, y)}"""
  cells = {}
  for r in rows:
    k = tuple(r[b] for b in by)
    cells.setdefault(k, {}).setdefault(
        tuple(r[b] for b in group), []).append(r)
  return {k: (np.array([[f(v) for f in feats] for v in c.values()], float),
              np.array([target(v) for v in c.values()], float))
          for k, c in ((k, dict(sorted(c.items())))
                       for k, c in cells.items())}


def soft_gap(grad, w, l1, positive):
  """Distance of the subgradient from zero."""
  if positive:
    if w < 0:
      return 1.
    return abs(grad + l1) if w > 0 else max(0, -(grad + l1))
  if w:
    return abs(grad + l1 * np.sign(w))
  return max(0, abs(grad) - l1)


def linear_gap(cls, params, x, y, intercept, normalize, b0, w):
  """How far the coefficients are from the optimum of the objective."""
  n, k = x.shape
  norm = np.ones(k)
  if intercept and normalize:
    m = x.mean(0)
    norm = np.sqrt(((x - m)**2).sum(0))
    # y - b0 - x w = y - (b0 + m w) - (x - m)/norm (w norm)
    b0 = b0 + m @ w
    x = (x - m) / norm
    w = w * norm
  res = y - x @ w - (b0 if intercept else 0)
  gap = [abs(res.sum())] if intercept else []
  if cls in ('LinearRegression', 'Ridge'):
    alpha = params.get('alpha', 1) if cls == 'Ridge' else 0
    gap += list(abs(-x.T @ res + alpha * w))
    return max(gap) / max(1, abs(x.T @ y).max())
  l1 = params['alpha'] * params.get('l1_ratio', 1)
  l2 = params['alpha'] * (1 - params.get('l1_ratio', 1))
  grad = -x.T @ res / n + l2 * w
  gap = [g / n for g in gap]
  gap += [soft_gap(g, v, l1, params.get('positive')) for g, v in zip(grad, w)]
  return max(gap) / max(1, abs(x.T @ y).max() / n)


def logistic_gap(params, x, y, intercept, coefs, classes):
  """coefs: {class: (intercept, w)}; binary: only the second class."""
  c, pen = params.get('C', 1.), params.get('penalty', 'l2')
  x1 = np.column_stack([np.ones(len(y)), x]) if intercept else x
  mat = np.array([np.r_[b, w] if intercept else w for b, w in coefs])
  z = x1 @ mat.T
  if len(coefs) == 1:
    p = (1 / (1 + np.exp(-z)))
    t = (y == classes[1]).astype(float)[:, None]
  else:
    e = np.exp(z - z.max(1, keepdims=True))
    p = e / e.sum(1, keepdims=True)
    t = (y[:, None] == np.array(classes)[None]).astype(float)
  grad = ((p - t).T @ x1)
  rho = {'l1': 1, 'l2': 0, None: None, 'elasticnet': params.get('l1_ratio')}[
      pen]
  gap = []
  for g, m in zip(grad, mat):
    for i, (d, v) in enumerate(zip(g, m)):
      if i == 0 and intercept or rho is None:
        gap.append(abs(d))
      else:
        gap.append(soft_gap(d + (1 - rho) * v / c, v, rho / c, False))
  return max(gap) / len(y)


KINDS = {
    'ols': ('LinearRegression', 'OLS', lambda rng: {}),
    'ridge': ('Ridge', 'Ridge',
              lambda rng: rng.choice([{}, {'alpha': .2}, {'alpha': 3}])),
    'lasso': ('Lasso', 'Lasso', lambda rng: dict(
        {'alpha': rng.choice([.01, .1, .3]), 'tol': 1e-10,
         'max_iter': 20000},
        **({'positive': True} if rng.random() < .2 else {}))),
    'enet': ('ElasticNet', 'ElasticNet', lambda rng: dict(
        {'alpha': rng.choice([.01, .1, .3]), 'tol': 1e-10,
         'l1_ratio': rng.choice([.2, .5, .9, 1]), 'max_iter': 20000},
        **({'positive': True} if rng.random() < .2 else {}))),
    'logit': ('LogisticRegression', 'LogisticRegression', lambda rng: dict(
        {'tol': 1e-8, 'max_iter': 5000},
        **rng.choice([{}, {'C': .3}, {'C': 4.}, {'penalty': None},
                      {'penalty': 'l1', 'solver': 'saga', 'random_state': 1},
                      {'penalty': 'elasticnet', 'l1_ratio': .4,
                       'solver': 'saga', 'random_state': 1}]))),
}


def sklearn_gap(params, x, y, intercept, v):
  """The stochastic solver stops early: its own result on the same rows."""
  from sklearn import linear_model  # pylint: disable=g-import-not-at-top
  m = linear_model.LogisticRegression(fit_intercept=intercept, **params)
  m.fit(x, y)
  w = m.coef_
  if intercept:
    w = np.column_stack([m.intercept_, w])
  return max(abs(w.reshape(-1) - np.array(v)))


def newton_converges(params, x, y, intercept):
  """Whether plain Newton steps from a point near zero reach the optimum."""
  x = np.column_stack([x, np.ones(len(y))]) if intercept else x
  pen = 0 if params.get('penalty', 'l2') is None else 1 / params.get('C', 1.)
  pen = np.full(x.shape[1], pen)
  if intercept:
    pen[-1] = 0
  rng = np.random.RandomState(0)
  for _ in range(12):
    w = rng.random_sample(x.shape[1])
    for _ in range(60):
      p = 1 / (1 + np.exp(-np.clip(x @ w, -500, 500)))
      h = (x * (p * (1 - p))[:, None]).T @ x + np.diag(pen)
      if np.linalg.cond(h) > 1e8:
        return False
      step = np.linalg.solve(h, x.T @ (p - y) + pen * w)
      w = w - step
      if abs(step).max() < 1e-9:
        break
    else:
      return False
  return True


def setup(ms, rng, i, kind, magic=False):
  cls, title, mk = KINDS[kind]
  params = mk(rng)
  by = [[], ['g'], ['g', 's']][i % 3]
  group = ['h'] if i % 4 else ['h', 'w']
  logit = kind == 'logit'
  feats = rng.sample([f for f in sorted(LEAVES) if f != 'f' or (
      len(group) == 1)], rng.randint(1, 3))
  if {'x', 'r'} <= set(feats) or {'z', 'f'} <= set(feats):
    feats = feats[:1]
  classes = 3 if logit and not magic and rng.random() < .4 else 2
  rows = table(rng, by, classes)
  t = CLASS if logit else TARGETS[rng.choice(sorted(TARGETS))]
  intercept = rng.random() < .7
  normalize = not logit and rng.random() < .5
  where = rng.choice([None, None, 'w < 2.5'])
  kept = [r for r in rows if not where or r['w'] < 2.5]
  data = design(kept, by, group, t[2], [LEAVES[f][2] for f in feats])
  for x, y in data.values():
    if len(y) < 8 or min(x.std(0)) < 1e-6 or np.linalg.cond(
        np.column_stack([np.ones(len(y)), x])) > 50:
      return None
    if logit:
      cl = sorted(set(y))
      if len(cl) != classes or min((y == c).sum() for c in cl) < 3:
        return None
      if magic and 'solver' not in params and not newton_converges(
          params, x, y, intercept):
        return None
  spec = {'model': cls, 'params': params, 'by': by, 'group_by': group,
          'y': t[0], 'x': [LEAVES[f][0] for f in feats],
          'fit_intercept': intercept, 'normalize': normalize, 'where': where}

  def make():
    kw = dict(params, fit_intercept=intercept, where=where)
    if not logit:
      kw['normalize'] = normalize
    ev = lambda s: eval(s, dict(vars(ms)))  # pylint: disable=eval-used
    x = [ev(s) for s in spec['x']]
    if i % 5 == 1 and not logit:
      kw['group_by'] = group
      return getattr(ms.models, cls)(**kw)(ms.MetricList([ev(t[0])] + x))
    return getattr(ms.models, cls)(
        ev(t[0]), x[0] if len(x) == 1 and i % 2 else x,
        group[0] if len(group) == 1 and i % 2 else group, **kw)
  names = [LEAVES[f][1] for f in feats]
  model_name = '%s(%s ~ %s)' % (title, t[1], ' + '.join(names))
  return spec, make, data, rows, names, model_name


def labels(spec, names, model_name, classes):
  one = (['intercept'] if spec['fit_intercept'] else []) + names
  if len(classes) > 2:
    one = ['%s for class %s' % (n, c) for c in classes for n in one]
  return ['%s Coefficient: %s' % (model_name, n) for n in one]


def run_(make, spec, rows, how):
  df = O.to_df(BSCH, rows)
  by = spec['by'] or None
  if how == 'df':
    return C05.quiet(lambda: make().compute_on(df, by)), None
  ex = C13.Exec(df)
  mode = {'sql': None, 'mixed': 'mixed', 'magic': 'magic'}[how]
  return C05.quiet(lambda: make().compute_on_sql(
      'T', by, execute=ex, mode=mode)), ex


def fit_suite(kind, how):
  logit = kind == 'logit'

  def run(ms, rng, i):
    warnings.simplefilter('ignore')
    su = setup(ms, rng, i, kind, how == 'magic')
    if su is None:
      return None
    spec, make, data, rows, names, model_name = su
    res, ex = run_(make, spec, rows, how)
    if ex and ex.unsupported:
      return None
    case = {'spec': spec, 'rows': rows, 'through': how}
    if ex:
      case['sql'] = ex.log[:2]
    if isinstance(res, compare.Raised):
      raise O.Mismatch('raises %s: %s' % (res.kind, str(res.exc)[:300]), case)
    got = C05.frame(res)
    classes = sorted({v for _, y in data.values() for v in y}) if logit else []
    want = labels(spec, names, model_name, classes)
    cols = [c[0] if isinstance(c, tuple) else c for c in got[1]]
    if cols != want:
      raise O.Mismatch('columns %s, expected %s' % (cols, want), case)
    if spec['by'] and (list(got[0]) != spec['by'] or set(got[2]) != set(data)):
      raise O.Mismatch('rows %s of %s, expected %s' % (
          sorted(got[2]), got[0], sorted(data)), case)
    if not spec['by'] and len(got[2]) != 1:
      raise O.Mismatch('%d rows' % len(got[2]), case)
    if any(isinstance(a, complex) for r in got[2].values() for a in r):
      raise O.Mismatch('complex coefficients %s' % (got[2],), case)
    for k, (x, y) in data.items():
      v = [float(a) if a is not None else float('nan') for a in (
          got[2][k] if spec['by'] else list(got[2].values())[0])]
      i_ = spec['fit_intercept']
      if logit:
        w = len(names) + i_
        coefs = [(v[j] if i_ else 0, np.array(v[j + i_:j + w]))
                 for j in range(0, len(v), w)]
        tol = 2e-5
        if 'solver' in spec['params'] and how != 'magic':
          gap = sklearn_gap(spec['params'], x, y, i_, v)
        else:
          gap = logistic_gap(spec['params'], x, y, i_, coefs, classes)
      else:
        gap = linear_gap(spec['model'], spec['params'], x, y, i_,
                         spec['normalize'], v[0] if i_ else 0,
                         np.array(v[1:] if i_ else v))
        tol = 1e-6 if kind in ('ols', 'ridge') else 1e-5
      if not gap <= tol:
        raise O.Mismatch('the coefficients %s at %s are not the optimum of '
                         'the objective (gradient %.2g)' % (v, k, gap), case)
    return (len(spec['by']), len(names), spec['fit_intercept'],
            spec['normalize'], str(spec['where']), str(spec['params'].get(
                'penalty', '')), len(classes))
  return run


for _k in KINDS:
  for _m, _n in (('df', 60), ('mixed', 30), ('magic', 60), ('sql', 10)):
    O.Suite('C18.%s.fit.%s' % (_k, _m), P,
            FNS + ['models.LogisticRegression.compute'] + (
                MAGIC if _m == 'magic' else []), fit_suite(_k, _m), _n,
            _n * 15, what='coefficients of %s satisfy the optimality '
            'conditions of the documented objective (%s)' % (
                KINDS[_k][0], _m))
