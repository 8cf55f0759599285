"""C20: mixed mode gives the result of computing on the DataFrame."""
import warnings

from engine import obligation as O
from props import C13
from props import catalog as C
from props import sqlcat as Q

P = 'C20'
LEVEL = 'proof'
TECHNIQUE = ('contract-based deductive verification: mixed mode, its queries '
             'evaluated relationally under BigQuery contracts, equals the '
             'symbolically executed compute_on for every table, discharged '
             'by z3; replayed on real data; bounded suites for the trees '
             'outside the contracts')
NOTE = ('Proved for the trees listed in the evidence, for all tables '
             'whose denominators are not zero; filtered trees: for the '
             'slices present on both sides. MH, ranking metrics, quantiles, '
             'CUPED/PrePost, models and resampling are bounded.')
FNS = ['metrics.Metric.compute_on_sql', 'metrics.Metric.compute_on_sql_mixed_mode',
       'metrics.Metric.compute_children_sql',
       'operations.Operation.compute_on_sql_mixed_mode',
       'operations.Jackknife.compute_children_sql']

for name_, e_ in C.CAT.items():
  if e_.sql is True and e_.mixed:
    O.Suite('C20.entry.' + name_, P, FNS + e_.fns,
            C13.entry_suite(e_, 'mixed'), 6, 60,
            what='mixed mode = compute_on (%s)' % name_)
for name_, t_ in Q.TREES.items():
  O.Suite('C20.tree.' + name_, P, FNS,
          C13.tree_suite(t_, 'mixed', known={}), 6, 60,
          what='mixed mode = compute_on (%s)' % name_)

# ------------------------------------------------- for all tables
C13.all_obligations(P, 'mixed', {})
