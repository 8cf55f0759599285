"""The SQL side of the properties which say what a metric returns.

C02, C04, C09, C10, C11, C16, C17 and C21 are stated for the metric, whichever
engine computes it.  For each of them: the metrics it is about give on SQL,
and in mixed mode, the values of compute_on, which the rest of the property's
obligations tie to the definition.
"""

from engine import obligation as O
from props import C13
from props import catalog as C
from props import sqlcat as Q

FNS = ['metrics.Metric.compute_on_sql', 'metrics.Metric.to_sql',
       'metrics.Metric.compute_on_sql_mixed_mode']
SLOW = set('''pct_pct abs_abs pct_cumdist mh_two_strata mh_dist nested_where
dist_dist mh mh_list mh_where mh_in_where'''.split())


def also(prop, entries, trees, by=(0, 1, 2), prove=True, modes=(None, 'mixed')):
  """entries, trees: names in catalog.CAT and sqlcat.TREES."""
  for mode in modes:
    tag = mode or 'sql'
    for n in entries:
      e = C.CAT[n]
      if e.sql is not True or (mode and not e.mixed):
        continue
      O.Suite('%s.%s.%s' % (prop, tag, n), prop, FNS + e.fns,
              C13.entry_suite(e, mode), 4, 40,
              what='on SQL (%s mode): %s' % (mode or 'default', n))
      if prove and not mode and not e.rand and n not in SLOW and (
          not C13.out_of_reach(n)):
        for b in by:
          if not set(Q.BY[b]) & set(e.extra) and not C13.out_of_reach(
              n, None, Q.BY[b]):
            C13.sql_obligation(prop, 'on_sql', Q.Tree(
                n, e.build, e.cond, e.rows), Q.BY[b], FNS + e.fns)
    for n in trees:
      if n in C13.KNOWN:
        continue
      t = Q.TREES[n]
      O.Suite('%s.%s_tree.%s' % (prop, tag, n), prop, FNS,
              C13.tree_suite(t, mode, known={}), 4, 40,
              what='on SQL (%s mode): %s' % (mode or 'default', n))
      if prove and not mode and not C13.out_of_reach(n) and n not in SLOW:
        for b in by[:2]:
          C13.sql_obligation(prop, 'on_sql', t, Q.BY[b], FNS)


def entries(*prefixes):
  return [n for n, e in C.CAT.items() if any(
      n == p.rstrip('*') or p.endswith('*') and n.startswith(p[:-1])
      for p in prefixes)]


def trees(*prefixes):
  return [n for n in Q.TREES if any(
      n == p.rstrip('*') or p.endswith('*') and n.startswith(p[:-1])
      for p in prefixes)]
