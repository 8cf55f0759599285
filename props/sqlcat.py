"""Metric trees for the SQL properties (C13, C20), besides the catalog.

Every tree comes with the table generator below, which keeps to the tables the
properties are stated for: every slice has, for every filter of the trees, at
least two units with a row that passes it and has all the values.
"""
from props import catalog as C
from engine import obligation as O

TREES = {}


class Tree(object):

  def __init__(self, name, build, cond, rows, mode=None):
    self.name, self.build, self.cond, self.rows = name, build, cond, rows


def E(name, build, cond=False, rows=(6, 16)):
  TREES[name] = Tree(name, build, cond, rows)


W = 'y > 0'


E('where_sum',lambda ms: ms.Sum('x',where=W))
E('where_or',lambda ms: ms.Sum('x',where='y > 0 or w > 3'))
E('where_list',lambda ms: ms.Sum('x',where=['y > 0 or w > 3','w < 8']))
E('where_str',lambda ms: ms.Sum('x',where='h == "a"'))
E('where_and_str',lambda ms: ms.Sum('x',where='h == "a" and y > 0'))
E('list_global',lambda ms: ms.MetricList([ms.Sum('x'),ms.Mean('y')],where=W))
E('list_both',lambda ms: ms.MetricList([ms.Sum('x',where='w > 1'),ms.Mean('y',where='w < 6')],where=W))
E('list_same_filter',lambda ms: ms.MetricList([ms.Sum('x',where=W),ms.Mean('y',where=W)]))
E('list_nested',lambda ms: ms.MetricList([ms.MetricList([ms.Sum('x'),ms.Count('x')],where=W),ms.Mean('y')]))
E('two_filters_same_name',lambda ms: ms.MetricList([ms.Sum('x',where=W),ms.Sum('x',where='y < 3')]))
E('dup',lambda ms: ms.MetricList([ms.Sum('x'),ms.Sum('x')]))
E('named',lambda ms: ms.MetricList([ms.Sum('x',name='a'),ms.Sum('y',name='b')]))
E('named_odd',lambda ms: ms.MetricList([ms.Sum('x',name='my metric (%)'),ms.Sum('y',name='1st')]))
E('swapped_names',lambda ms: ms.MetricList([ms.Sum('x',name='sum(y)'),ms.Sum('y',name='sum(x)')]))
E('name_is_col',lambda ms: ms.MetricList([ms.Sum('x',name='y'),ms.Sum('y',name='x')]))
E('composite_named',lambda ms: (ms.Sum('x')/ms.Sum('w')).set_name('r'))
E('composite_where',lambda ms: (ms.Sum('x',where=W)/ms.Sum('w')))
E('composite_self',lambda ms: ms.Sum('x')-ms.Sum('x',where=W))
E('comp_list',lambda ms: ms.MetricList([ms.Sum('x')+1, 2*ms.Sum('y')-ms.Sum('x'), -ms.Mean('x'), ms.Sum('x')-(ms.Sum('y')-ms.Sum('w'))]))
E('comp_div',lambda ms: ms.Sum('x')/(ms.Sum('w')/ms.Count('x')))
E('comp_div2',lambda ms: (ms.Sum('x')/ms.Sum('w'))/ms.Count('x'))
E('comp_rdiv',lambda ms: 1/ms.Sum('w'))
E('comp_rsub',lambda ms: 5-ms.Sum('w'))
E('comp_rpow',lambda ms: 2**ms.Count('w'))
E('comp_sub_chain',lambda ms: ms.Sum('x')-ms.Sum('y')-ms.Sum('w'))
E('comp_sub_paren',lambda ms: ms.Sum('x')-(ms.Sum('y')+1)*2)
E('comp_mul_neg',lambda ms: ms.Sum('x')*(-ms.Sum('y')))
E('comp_sub_neg',lambda ms: ms.Sum('x')-(-2))
E('ratio_where',lambda ms: ms.Ratio('x','w',where=W))
E('dist_where',lambda ms: ms.Distribution('h',ms.Sum('w',where=W)))
E('dist_where_out',lambda ms: ms.Distribution('h',ms.Sum('w'),where=W))
E('dist_comp',lambda ms: ms.Distribution('h',ms.Sum('w')/ms.Count('x')))
E('dist_two',lambda ms: ms.Distribution(['h','s'],ms.Sum('w')))
E('dist_dist',lambda ms: ms.Distribution('h',ms.Distribution('s',ms.Sum('w'))))
E('dist_list_filters',lambda ms: ms.Distribution('h',ms.MetricList([ms.Sum('w',where='x > 0'),ms.Count('x')])))
E('cumdist_where',lambda ms: ms.CumulativeDistribution('h',ms.Sum('w'),where='x > 0'))
E('cumdist_list',lambda ms: ms.CumulativeDistribution('h',ms.MetricList([ms.Sum('w'),ms.Count('x')])))
E('cumdist_desc_order',lambda ms: ms.CumulativeDistribution('h',ms.Sum('w'),order=['b','a','c'],ascending=False))
E('cumdist_values',lambda ms: ms.CumulativeDistribution('h',ms.Sum('w'),sort_by_values=True))
E('cumdist_pct',lambda ms: ms.CumulativeDistribution('h',ms.AbsoluteChange('c','a',ms.Sum('w'))),True,(14,30))
E('pct_cumdist',lambda ms: ms.PercentChange('c','a',ms.CumulativeDistribution('h',ms.Sum('w'))),True,(14,30))
E('pct_where',lambda ms: ms.PercentChange('c','a',ms.Sum('w'),where=W),True,(14,30))
E('pct_where_in',lambda ms: ms.PercentChange('c','a',ms.Sum('w',where=W)),True,(14,30))
E('pct_where_list',lambda ms: ms.PercentChange('c','a',ms.MetricList([ms.Sum('w',where=W),ms.Count('x')])),True,(14,30))
E('pct_where_list2',lambda ms: ms.MetricList([ms.PercentChange('c','a',ms.Sum('w',where=W)),ms.AbsoluteChange('c','a',ms.Count('x',where='y<3'))]),True,(14,30))
E('pct_minus_const',lambda ms: ms.PercentChange('c','a',ms.Sum('w'))+1,True,(14,30))
E('pct_div',lambda ms: ms.PercentChange('c','a',ms.Sum('w'))/ms.AbsoluteChange('c','a',ms.Count('x')),True,(14,30))
E('pct_sum_plain',lambda ms: ms.MetricList([ms.PercentChange('c','a',ms.Sum('w')),ms.PercentChange('c','b',ms.Sum('w'))]),True,(14,30))
E('pct_pct',lambda ms: ms.PercentChange('h','a',ms.PercentChange('c','a',ms.Sum('w'))),True,(20,40))
E('abs_abs',lambda ms: ms.AbsoluteChange('h','a',ms.AbsoluteChange('c','a',ms.Sum('w'))),True,(20,40))
E('abs_base2',lambda ms: ms.AbsoluteChange('c','a',ms.MetricList([ms.Sum('w'),ms.Mean('x')]),include_base=True),True,(14,30))
E('abs_multi_base',lambda ms: ms.AbsoluteChange(['c','h'],('a','a'),ms.Sum('w'),include_base=True),True,(14,30))
E('pct_composite',lambda ms: ms.PercentChange('c','a',ms.Sum('x')/ms.Sum('w')),True,(14,30))
E('mh_where',lambda ms: ms.MH('c','a','s',ms.Sum('w')/ms.Count('w'),where=W),True,(20,40))
E('mh_two_strata',lambda ms: ms.MH('c','a',['s','h'],ms.Sum('w')/ms.Count('w')),True,(20,40))
E('mh_in_where',lambda ms: ms.MH('c','a','s',ms.Sum('w',where=W)/ms.Sum('w')),True,(20,40))
E('mh_ratio',lambda ms: ms.MH('c','a','s',ms.Ratio('w','w')),True,(20,40))
E('mh_dist',lambda ms: ms.Distribution('h',ms.MH('c','a','s',ms.Sum('w')/ms.Count('w'))),True,(20,40))
E('hhi_where',lambda ms: ms.HHI('h',ms.Sum('w')).add_where(W))
E('hhi_where_in',lambda ms: ms.HHI('h',ms.Sum('w',where=W)))
E('hhi_list2',lambda ms: ms.MetricList([ms.HHI('h',ms.Sum('w')),ms.Entropy('h',ms.Count('x'))]))
E('entropy_where',lambda ms: ms.Entropy('h',ms.Sum('w')).add_where(W))
E('topk_list',lambda ms: ms.TopK('h',2,ms.MetricList([ms.Sum('w'),ms.Count('x')])))
E('topk_where',lambda ms: ms.TopK('h',1,ms.Sum('w')).add_where(W))
E('nxx_list',lambda ms: ms.Nxx('h',0.6,ms.MetricList([ms.Sum('w'),ms.Count('x')])))
E('pct_hhi',lambda ms: ms.PercentChange('c','a',ms.HHI('h',ms.Sum('w'))),True,(14,30))
E('pct_topk',lambda ms: ms.PercentChange('c','a',ms.TopK('h',1,ms.Sum('w'))),True,(14,30))
E('pct_nxx',lambda ms: ms.AbsoluteChange('c','a',ms.Nxx('h',.5,ms.Sum('w'))),True,(14,30))
E('hhi_minus',lambda ms: ms.HHI('h',ms.Sum('w'))-ms.HHI('s',ms.Sum('w')))
E('hhi_two',lambda ms: ms.HHI(['h','s'],ms.Sum('w')))
E('jk_where',lambda ms: ms.Jackknife('u',ms.Sum('w'),where=W),rows=(14,30))
E('jk_where_in',lambda ms: ms.Jackknife('u',ms.Sum('w',where=W)),rows=(14,30))
E('jk_list_filters',lambda ms: ms.Jackknife('u',ms.MetricList([ms.Sum('w',where=W),ms.Mean('w'),ms.Sum('x')/ms.Sum('w')])),rows=(14,30))
E('jk_dist',lambda ms: ms.Jackknife('u',ms.Distribution('h',ms.Sum('w'))),rows=(20,40))
E('jk_pct_where',lambda ms: ms.Jackknife('u',ms.PercentChange('c','a',ms.Sum('w',where=W))),True,(30,60))
E('jk_pct_ci',lambda ms: ms.Jackknife('u',ms.PercentChange('c','a',ms.Sum('w')),0.9),True,(30,60))
E('jk_mh',lambda ms: ms.Jackknife('u',ms.MH('c','a','s',ms.Sum('w')/ms.Count('w'))),True,(40,60))
E('jk_slow_where',lambda ms: ms.Jackknife('u',ms.Max('w',where=W),where='x < 5'),rows=(14,30))
E('jk_slow_pct',lambda ms: ms.Jackknife('u',ms.PercentChange('c','a',ms.Max('w'))),True,(30,60))
E('jk_var',lambda ms: ms.Jackknife('u',ms.Variance('w')),rows=(14,30))
E('jk_list',lambda ms: ms.MetricList([ms.Jackknife('u',ms.Sum('w')),ms.Sum('w')]),rows=(14,30))
E('jk_noopt',lambda ms: ms.Jackknife('u',ms.PercentChange('c','a',ms.Sum('w')),0.9,False),True,(30,60))
E('jk_hhi',lambda ms: ms.Jackknife('u',ms.HHI('h',ms.Sum('w'))),rows=(20,40))
E('jk_count_distinct',lambda ms: ms.Jackknife('u',ms.Count('x',distinct=True)),rows=(20,40))
E('jk_dot',lambda ms: ms.Jackknife('u',ms.Dot('x','y')),rows=(20,40))
E('jk_wmean',lambda ms: ms.Jackknife('u',ms.Mean('x','w')),rows=(20,40))
E('jk_cumdist',lambda ms: ms.Jackknife('u',ms.CumulativeDistribution('h',ms.Sum('w'))),rows=(20,40))
E('prepost_where',lambda ms: ms.PrePostChange('c','a',ms.Sum('y'),ms.Sum('w'),'u',where='x > 0'),True,(40,60))
E('prepost_two',lambda ms: ms.PrePostChange('c','a',ms.Sum('y'),[ms.Sum('w'),ms.Sum('x')],'u'),True,(50,70))
E('cuped_two',lambda ms: ms.CUPED('c','a',ms.Sum('y'),[ms.Sum('w'),ms.Sum('x')],'u'),True,(50,70))
E('cuped_list',lambda ms: ms.CUPED('c','a',ms.MetricList([ms.Sum('y'),ms.Count('y')]),ms.Sum('w'),'u'),True,(50,70))
E('cuped_base',lambda ms: ms.CUPED('c','a',ms.Sum('y'),ms.Sum('w'),'u',include_base=True),True,(50,70))
E('cuped_where',lambda ms: ms.CUPED('c','a',ms.Sum('y'),ms.Sum('w'),'u',where='x > 0'),True,(50,70))
E('jk_cuped',lambda ms: ms.Jackknife('u',ms.CUPED('c','a',ms.Sum('y'),ms.Sum('w'),'u')),True,(50,70))
E('jk_prepost',lambda ms: ms.Jackknife('u',ms.PrePostChange('c','a',ms.Sum('y'),ms.Sum('w'),'u')),True,(50,70))
E('nth0',lambda ms: ms.Nth('x',0,'w'))
E('nth2',lambda ms: ms.Nth('x',2,'w',where=W))
E('dot_where',lambda ms: ms.Dot('x','y',True,where='w>2'))
E('corr_where',lambda ms: ms.Correlation('x','y',where='w>1'))
E('cov_where',lambda ms: ms.Cov('x','y',weight='w',where='y>-1'))
E('wmean_where',lambda ms: ms.MetricList([ms.Mean('x','w',where=W),ms.Mean('x','w')]))
E('sd_where',lambda ms: ms.MetricList([ms.StandardDeviation('x',where=W),ms.CV('w')]))
E('renamed_children',lambda ms: ms.MetricList([ms.Sum('x'),ms.Sum('y')],rename_columns=['a','b']))
E('list_tmpl',lambda ms: ms.MetricList([ms.Sum('x'),ms.Sum('y')],name_tmpl='pre {}'))
E('dist_tmpl',lambda ms: ms.Distribution('h',ms.Sum('w'),name_tmpl='share of {}'))
E('pct_tmpl',lambda ms: ms.PercentChange('c','a',ms.Sum('w'),name_tmpl='{} rel'),True,(14,30))
E('wquantile', lambda ms: ms.Quantile('x', 0.3, 'w'))
E('wquantile_where', lambda ms: ms.Quantile('x', 0.6, 'w', where=W))
E('wquantiles', lambda ms: ms.Quantile('x', (0.1, 0.29, 0.75), 'w'))
E('pct_wquantile', lambda ms: ms.PercentChange(
    'c', 'a', ms.Quantile('x', 0.3, 'w')), True, (14, 30))
E('where_eq', lambda ms: ms.MetricList(
    [ms.Sum('x', where='h == "a"'), ms.Count('x', where='h != "a"')]))
E('list_of_ops', lambda ms: ms.MetricList(
    [ms.Distribution('h', ms.Sum('w')), ms.Distribution('h', ms.Count('w')),
     ms.CumulativeDistribution('h', ms.Sum('w'))]))
E('op_of_composite_filters', lambda ms: ms.PercentChange(
    'c', 'a', ms.Sum('x', where='y > 0') / ms.Sum('w', where='y < 3')), True,
  (14, 30))
E('nested_where', lambda ms: ms.PercentChange('c', 'a', ms.MetricList(
    [ms.Distribution('h', ms.Sum('w', where='x > 0'), where='y > 0')],
    where='w < 8')), True, (20, 40))
E('count_star_ratio', lambda ms: ms.Count('x') / ms.Count('x', distinct=True))
E('variance_list', lambda ms: ms.MetricList(
    [ms.Variance('x'), ms.Variance('x', False), ms.Variance('x', weight='w'),
     ms.StandardDeviation('x', False), ms.CV('x')]))
E('jk_ratio_filter', lambda ms: ms.Jackknife(
    'u', ms.Sum('x', where=W) / ms.Sum('w')), rows=(20, 40))
E('jk_of_list', lambda ms: ms.Jackknife('u', ms.MetricList(
    [ms.Sum('x'), ms.Mean('w'), ms.Count('x')]), 0.9), rows=(20, 40))
E('jk_split_pct', lambda ms: ms.Jackknife('u', ms.PercentChange(
    'c', 'a', ms.MetricList([ms.Sum('w'), ms.Mean('x')])), 0.95), True,
  (30, 60))
E('jk_abs_slow', lambda ms: ms.Jackknife('u', ms.AbsoluteChange(
    'c', 'a', ms.MetricList([ms.Min('x'), ms.Mean('x')])), 0.9), True,
  (30, 60))
E('jk_outer_composite', lambda ms: ms.Jackknife('u', ms.PercentChange(
    'c', 'a', ms.Sum('w')) - ms.AbsoluteChange('c', 'a', ms.Mean('w'))), True,
  (30, 60))

E('merged_names', lambda ms: ms.MetricList(
    [ms.Distribution('h', ms.Sum('w', name='a')),
     ms.CumulativeDistribution('h', ms.Sum('w', name='b'))]))
E('merged_named_members', lambda ms: ms.MetricList(
    [ms.Sum('w', name='a'), ms.Distribution('h', ms.Sum('w'))])[1])

# trees with statistics over several columns: stated for rows with all inputs
NONULL = {n for n in TREES if any(s in n for s in (
    'dot', 'wmean', 'cov', 'corr', 'nth', 'cuped', 'prepost', 'wquantile',
    'variance_list', 'composite', 'dup'))}
# names that appear in pandas only through an exception
BY = [[], ['g'], ['g', 'k']]


def table(t, rng, i, by, nulls=False):
  """Rows within the precondition of C13, see DESIGN.md."""
  big = t.rows[0] >= 30
  n = rng.randint(*t.rows)
  xs, ws = rng.sample(range(1, 400), n), rng.sample(range(1, 400), n)
  rows = []
  for j in range(n):
    r = {'x': xs[j] / 16. - 8, 'y': rng.choice(O.NUMS) + j / 512.,
         'w': ws[j] / 8.}
    for c in 'ghcsk':
      r[c] = rng.choice(['a', 'b'] if c in 'gk' or big else ['a', 'b', 'c'])
    r['u'] = rng.choice(['u1', 'u2', 'u3', 'u4', 'u5', 'u6'])
    rows.append(r)
  keys = list(by) + ['h', 'c', 's']
  cells = sorted({tuple(r[k] for k in keys) for r in rows})
  for b in sorted({tuple(r[k] for k in by) for r in rows}):
    # labels that literal filters and baselines mention
    for h in ('a', 'b'):
      cells.append(b + (h, 'a', 'a'))
  # rows that pass all the filters of the trees, for two units
  fill, m = [], 2 * len(cells)
  v = rng.sample(range(1, 4 * m + 1), m)
  z = rng.sample(range(1, 4 * m + 1), m)
  for j in range(m):
    r = dict(zip(keys, cells[j // 2]))
    r.update(x=4. * v[j] / (4 * m + 1) + .3, w=3.1 + 2.5 * z[j] / (4 * m + 1),
             y=rng.choice([1., 1.5, 2.]) + (j + .5) / 2048., u=['u1', 'u2'][j % 2])
    for c in 'gk':
      r.setdefault(c, rng.choice(['a', 'b']))
    fill.append(r)
  if nulls:
    for r in rows:
      if rng.random() < .25:
        r['x'] = None
      if rng.random() < .15:
        r['y'] = None
  rows += fill
  rng.shuffle(rows)
  return rows


SCHEMA = {'x': 'num', 'y': 'num', 'w': 'pos', 'g': 'key', 'h': 'key',
          'c': 'key', 's': 'key', 'k': 'key', 'u': 'key'}
