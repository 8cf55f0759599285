"""C04: arithmetic on metrics is arithmetic on their values."""
import operator

from engine import obligation as O
from engine import spec as S
from props import sqlalso

P = 'C04'
LEVEL = 'proof'
TECHNIQUE = ('contract-based deductive verification: composite metrics and '
             'lists over abstract operand metrics, symbolic execution of the '
             'real code, obligations discharged by z3; replay on real pandas')
NOTE = ('Operands are uninterpreted metrics, so the result holds for every '
        'operand that obeys the metric contract (one value per slice). '
        'Row order is outside the contracts and only checked on the replayed '
        'tables.')
SCH = {'x': 'num', 'y': 'num', 'g': 'key', 'h': 'key'}
SPLITS = {'all': [], 'g': ['g'], 'gh': ['g', 'h']}
FNS = ['metrics.CompositeMetric.compute_children',
       'metrics.CompositeMetric.compute_on_children',
       'metrics.Metric.compute_util_metric_on',
       'metrics.Metric.to_series_or_number', 'metrics.Metric.compute_on',
       'metrics.Metric.manipulate']

m1 = lambda g: g.opaque('N1', 'x')
m2 = lambda g: g.opaque('N2', 'y')


def A(ms):
  return ms.Abstract('N1', ('x',))


def B(ms):
  return ms.Abstract('N2', ('y',))


OPS = {'add': (operator.add, '{} + {}'), 'sub': (operator.sub, '{} - {}'),
       'mul': (operator.mul, '{} * {}'), 'div': (operator.truediv, '{} / {}'),
       'pow': (operator.pow, '{} ^ {}')}


def ob(id, fns, impl, cols, splits=SPLITS, colnames=None, **kw):
  for s in splits:
    by = SPLITS[s]
    O.Obligation('C04.%s.%s' % (id, s), P, FNS + fns, SCH,
                 lambda ms, df, by=by: impl(ms).compute_on(df, by),
                 lambda rows, by=by: S.frame(rows, by, cols,
                                             colnames=colnames), **kw)


for n, (op, t) in OPS.items():
  fn = ['metrics.Metric.__%s__' % n]
  if n != 'pow':
    ob('metrics.' + n, fn, lambda ms, op=op: op(A(ms), B(ms)),
       [(t.format('N1', 'N2'), lambda g, op=op: op(m1(g), m2(g)))])
  for c in ((2, 0.5) if n != 'pow' else (2, 3)):
    ob('const_right.%s.%s' % (n, c), fn,
       lambda ms, op=op, c=c: op(A(ms), c),
       [(t.format('N1', c), lambda g, op=op, c=c: op(m1(g), c))])
    if n != 'pow':
      ob('const_left.%s.%s' % (n, c), ['metrics.Metric.__r%s__' % n],
         lambda ms, op=op, c=c: op(c, A(ms)),
         [(t.format(c, 'N1'), lambda g, op=op, c=c: op(S.cell(c).val and S.wrap(
             S.cell(c)), m1(g)))])
ob('sqrt', ['metrics.Metric.__pow__'], lambda ms: A(ms)**0.5,
   [('sqrt(N1)', lambda g: S.sqrt(m1(g)))])
ob('pow_metric', ['metrics.Metric.__pow__'], lambda ms: A(ms)**B(ms),
   [('N1 ^ N2', lambda g: m1(g)**m2(g))], splits=('g',))
ob('rpow', ['metrics.Metric.__rpow__'], lambda ms: 2**A(ms),
   [('2 ^ N1', lambda g: S.wrap(S.cell(2))**m1(g))], splits=('g',))
ob('neg', ['metrics.Metric.__neg__'], lambda ms: -A(ms),
   [('-N1', lambda g: -m1(g))])
ob('nested', ['metrics.CompositeMetric.get_fingerprint'],
   lambda ms: (A(ms) - B(ms)) / (A(ms) + 2) - 1,
   [('N1 - N2 / N1 + 2 - 1', lambda g: (m1(g) - m2(g)) / (m1(g) + 2) - 1)])
ob('set_name', ['metrics.CompositeMetric.set_name'],
   lambda ms: (A(ms) * B(ms)).set_name('foo'),
   [('foo', lambda g: m1(g) * m2(g))], splits=('all', 'g'))
ob('rename', ['metrics.CompositeMetric.rename_columns'],
   lambda ms: (A(ms) * B(ms)).rename_columns(['foo']),
   [('foo', lambda g: m1(g) * m2(g))], splits=('g',))
ob('ratio', ['metrics.Ratio.__init__'], lambda ms: ms.Ratio('x', 'y'),
   [('sum(x) / sum(y)', lambda g: g.sum('x') / g.sum('y'))])
ob('ratio_named', ['metrics.Ratio.__init__'],
   lambda ms: ms.Ratio('x', 'y', 'ctr'),
   [('ctr', lambda g: g.sum('x') / g.sum('y'))], splits=('all', 'g'))


# ------------------------------------------------------------ lists
def L(ms, **kw):
  return ms.MetricList([A(ms), B(ms)], **kw)


LF = ['metrics.MetricList.compute_slices', 'metrics.MetricList.to_dataframe',
      'metrics.MetricList.compute_on_children', 'metrics.MetricList.manipulate']
both = [('N1', m1), ('N2', m2)]
ob('list', LF, lambda ms: L(ms), both)
ob('list_rev', LF, lambda ms: ms.MetricList([B(ms), A(ms)]), both[::-1])
ob('list_dup', LF, lambda ms: ms.MetricList([A(ms), A(ms)]),
   [('N1', m1), ('N1', m1)], splits=('g',))
ob('list_one', LF, lambda ms: ms.MetricList([A(ms)]), both[:1])
ob('list_tmpl', LF, lambda ms: L(ms, name_tmpl='a {} b'),
   [('a N1 b', m1), ('a N2 b', m2)], splits=())
ob('list_rename', LF + ['metrics.MetricList.rename_columns'],
   lambda ms: L(ms, rename_columns=['p', 'q']), [('p', m1), ('q', m2)])
ob('list_nested', LF,
   lambda ms: ms.MetricList([B(ms), L(ms), A(ms) - B(ms)]),
   [('N2', m2)] + both + [('N1 - N2', lambda g: m1(g) - m2(g))])
ob('list_shared', LF,
   lambda ms: ms.MetricList([ms.Mean('x'), ms.Sum('x') / ms.Count('x'),
                             ms.Sum('x') - ms.Count('x'),
                             ms.Sum('x') * ms.Count('x'), ms.Sum('x')]),
   [('mean(x)', lambda g: g.mean('x')),
    ('sum(x) / count(x)', lambda g: g.mean('x')),
    ('sum(x) - count(x)', lambda g: g.sum('x') - g.count('x')),
    ('sum(x) * count(x)', lambda g: g.sum('x') * g.count('x')),
    ('sum(x)', lambda g: g.sum('x'))])
for n, (op, t) in OPS.items():
  if n == 'pow':
    continue
  ob('list_%s_metric' % n, LF, lambda ms, op=op: op(L(ms), A(ms)),
     [(t.format('N1', 'N1'), lambda g, op=op: op(m1(g), m1(g))),
      (t.format('N2', 'N1'), lambda g, op=op: op(m2(g), m1(g)))],
     splits=('all', 'g'))
  ob('metric_%s_list' % n, LF, lambda ms, op=op: op(A(ms), L(ms)),
     [(t.format('N1', 'N1'), lambda g, op=op: op(m1(g), m1(g))),
      (t.format('N1', 'N2'), lambda g, op=op: op(m1(g), m2(g)))],
     splits=('all', 'g'))
  ob('list_%s_const' % n, LF, lambda ms, op=op: op(L(ms), 2),
     [(t.format('N1', 2), lambda g, op=op: op(m1(g), 2)),
      (t.format('N2', 2), lambda g, op=op: op(m2(g), 2))],
     splits=('all', 'g'))
  ob('const_%s_list' % n, LF, lambda ms, op=op: op(3, L(ms)),
     [(t.format(3, 'N1'), lambda g, op=op: op(S.wrap(S.cell(3)), m1(g))),
      (t.format(3, 'N2'), lambda g, op=op: op(S.wrap(S.cell(3)), m2(g)))],
     splits=('all', 'g'))
  ob('list_%s_list' % n, LF,
     lambda ms, op=op: op(L(ms), ms.MetricList([B(ms), A(ms)])),
     [(t.format('N1', 'N2'), lambda g, op=op: op(m1(g), m2(g))),
      (t.format('N2', 'N1'), lambda g, op=op: op(m2(g), m1(g)))],
     splits=('all', 'g'))


# ------------------------------------------------- the same on SQL
sqlalso.also(P, sqlalso.entries('comp_*', 'list*', 'ops_*'), sqlalso.trees(
    'comp_*', 'composite_*', 'list_*', 'two_filters_same_name', 'swapped_names',
    'named*', 'name_is_col', 'renamed_children', 'pct_minus_const', 'pct_div',
    'hhi_minus', 'count_star_ratio'))
