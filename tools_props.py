"""Writes properties.jsonl and the check list of MANIFEST.json from one table."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
  a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
  if state: a['state'] = [{'name': n, 'meaning': m} for n, m in state]
  if observe: a['observe_at'] = observe
  P.append({'id': id, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

TST = 'The unit tests evaluate one or two fixed tables of 3-8 rows per metric; '
p('C01', 'Splitting a computation equals computing every slice on its own',
  'Computing any metric or operation with a split returns, for every combination of split labels that occurs in the data (after the metric\'s own filters), exactly what the same metric returns on the rows of that combination alone. Combinations without rows do not get invented values, and rows of one slice never influence the value of another.',
  ['inputs', 'configurations'],
  'all tables (any number of rows, slices, nulls), all split column sets, all built-in metrics and operations and their nestings',
  TST + 'they cannot cover all slice layouts (one-row slices, slices missing a label, several split columns) for every metric.',
  ['metrics.py', 'operations.py', 'diversity.py', 'models.py'],
  [('vectorised slice computation', 'metrics.py: Metric.compute_slices, Metric.split_data, Metric.group'), ('slice loops of operations', 'operations.py: Operation.compute_children, MetricWithCI.compute_slices, Jackknife/Bootstrap')],
  observe=['Metric.compute_on result'])
p('C02', 'Each basic metric returns its mathematical definition',
  'Sum, count, distinct count, product sum, mean, extremes, order statistics, quantiles, variance, standard deviation, coefficient of variation, covariance, correlation and ratio, weighted or not, biased or unbiased, return the value of their textbook definition over the non-missing rows of each slice (for weighted and two-variable statistics: over rows all of whose inputs are present). Statistics that are undefined on a slice (too few rows) are reported as missing rather than as a number.',
  ['inputs', 'configurations'], 'all numeric tables with missing values, all weights, all option combinations, all splits',
  TST + 'definitions must hold for all data, including missing values, single-row slices, ties and non-unit weights.',
  ['metrics.py', 'utils.py'],
  [('simple metrics', 'metrics.py: Sum, Count, Dot, Mean, Max, Min, Nth, Quantile, Variance, StandardDeviation, CV, Correlation, Cov, Ratio'), ('sufficient-statistics forms', 'metrics.py: get_equivalent_without_filter; utils.py: get_fully_expanded_equivalent_metric_tree')],
  observe=['Metric.compute_on result'])
p('C03', 'A filter is the same as filtering the data first',
  'A metric, operation or list that carries a filter returns exactly what it returns without the filter on the data with the non-matching rows removed. Filters on nested parts combine by conjunction along the nesting, apply only to the part that carries them, and their order or repetition does not matter.',
  ['inputs', 'programs'], 'all tables, all predicates over columns, all placements of filters in a metric tree',
  TST + 'they place one filter at one or two positions of small trees.',
  ['metrics.py', 'operations.py', 'utils.py', 'sql.py'],
  [('dataframe filter', 'metrics.py: Metric.compute_through, Metric.where, Metric.add_where'), ('filter push-down', 'utils.py: get_global_filter, push_filters_to_leaf_nodes; operations.py: Operation.compute_children')],
  observe=['Metric.compute_on result'])
p('C04', 'Arithmetic on metrics is arithmetic on their values',
  'Combining metrics and numbers with the arithmetic operators gives, for every slice and output column, that arithmetic applied to the operands\' own values, with the operand order respected and the documented column naming. A list of metrics returns every member\'s own result side by side, in the given order.',
  ['inputs', 'programs'], 'all expression trees over metrics, operations and constants, all tables and splits',
  TST + 'expression trees are unbounded and operands may be numbers, single- or multi-column, or differently indexed.',
  ['metrics.py'], [('composition', 'metrics.py: Metric arithmetic operators, CompositeMetric.compute_on_children, CompositeMetric.compute_slices, MetricList.compute_slices, MetricList.to_dataframe')],
  observe=['Metric.compute_on result'])
p('C05', 'Caching and sharing never change a result',
  'Any metric computed as part of a larger metric, repeated within it, or computed with a user-supplied cache key on the same data returns the same values and labels as when computed alone with a fresh state. After a computation ends, normally or with an error, no cached value of it remains to influence a later computation on other data.',
  ['histories', 'programs'], 'all metric trees with repeated or equivalent parts, all sequences of computations including failing ones, all user cache keys',
  'Caching bugs need particular combinations of metrics, shared sub-expressions and sequences of calls; tests check single calls and a few cache hits.',
  ['metrics.py', 'operations.py', 'utils.py'],
  [('cache', 'metrics.py: Metric._compute_with_caching_and_postprocessing, save_to_cache, get_cached, wrap_cache_key, clean_up_cache'), ('cache keys', 'utils.py: CacheKey'), ('cached operations', 'operations.py: Jackknife, Bootstrap cache use')],
  [('cache', 'results by (metric fingerprint, data key, filter, split, slice)'), ('cache_key', 'key in use during a computation')],
  ['Metric.compute_on result', 'Metric.cache, Metric.cache_key after the call'])
p('C06', 'Metrics treated as equal always compute the same values',
  'Two metrics that compare equal, or that are allowed to share a cached result, return the same values on every data set. Metrics whose parameters, filters, operators, operands or order differ in a way that changes a result are distinguished; equality is reflexive and symmetric and agrees with hashing.',
  ['inputs', 'programs'], 'all pairs of metrics built from the built-in classes and their parameters',
  'The number of parameter pairs is unbounded and tests compare a handful of pairs.',
  ['metrics.py', 'operations.py', 'models.py', 'diversity.py', 'utils.py'],
  [('identity', 'metrics.py: Metric.get_fingerprint, Metric.__eq__, Metric.__hash__, CompositeMetric.get_fingerprint, Ratio.get_fingerprint'), ('keys', 'utils.py: CacheKey.__eq__/__hash__')],
  observe=['Metric.__eq__', 'two metrics computed in one list'])
p('C07', 'Computing leaves data and metrics unchanged and is repeatable',
  'Computing a metric never modifies the data passed in, nor the definition, name, filter or children of the metric or of metrics built from it, so that computing again gives the same result. Building a new metric from existing ones (arithmetic, lists, operations, pipelines) leaves the existing ones as they were.',
  ['histories', 'inputs'], 'all metrics, all data, all sequences of building and computing',
  'Tests compute each metric once or twice on fresh objects and rarely compare the inputs afterwards.',
  ['metrics.py', 'operations.py', 'models.py', 'diversity.py', 'utils.py'],
  [('computation', 'metrics.py: Metric.compute_on; operations.py: Operation.__call__, Jackknife, Bootstrap, CUPED'), ('auxiliary columns', 'utils.py: add_auxiliary_cols')],
  observe=['input DataFrame before/after', 'metric fingerprints before/after'])
p('C08', 'The sufficient-statistics form of a metric equals the metric',
  'Every metric that offers an equivalent expression in simpler metrics (ultimately sums and counts) evaluates to the same values as that expression on all data, splits and filters. Expanding a metric tree keeps filters, names and results.',
  ['inputs', 'programs'], 'all metrics with an equivalent form, all options and weights, all trees containing them, all tables',
  TST + 'algebraic identities must hold for every data set.',
  ['metrics.py', 'utils.py', 'operations.py', 'diversity.py'],
  [('equivalents', 'metrics.py: get_equivalent, get_equivalent_without_filter'), ('expansion', 'utils.py: get_fully_expanded_equivalent_metric_tree, get_equivalent_metric, add_auxiliary_cols')],
  observe=['Metric.compute_on vs compute_equivalent'])
p('C09', 'Comparisons measure the change against the named baseline',
  'A percent or absolute change reports, for every condition and slice, the relative or absolute difference between that condition and the baseline of the same slice; the baseline rows are dropped or reported as zero as requested. The stratified ratio estimator returns the Mantel-Haenszel formula of its ratio over all strata.',
  ['inputs', 'configurations'], 'all tables, baselines (single or multi-column), splits and child metrics',
  TST + 'baselines missing from some slice, several condition columns and multi-column children are rarely combined.',
  ['operations.py'], [('comparison', 'operations.py: Comparison, PercentChange.compute_on_children, AbsoluteChange.compute_on_children, MH.compute_children, MH.compute_on_children')],
  observe=['compute_on result'])
p('C10', 'Distributions divide by the slice total and accumulate in order',
  'A distribution reports each category\'s share of the total of its own slice, so shares of a slice add up to one. A cumulative distribution reports, along the requested order of the categories, the running sum of these shares, ending at one in every slice.',
  ['inputs', 'configurations'], 'all tables, categories, orders, splits and child metrics',
  TST + 'all orders, splits and category layouts cannot be sampled.',
  ['operations.py'], [('distribution', 'operations.py: Distribution.compute_on_children, CumulativeDistribution.compute_on_children, Normalize')],
  observe=['compute_on result'])
p('C11', 'Jackknife standard errors equal the delete-one-unit definition',
  'The jackknife of a metric reports the metric\'s own value together with the standard error obtained by deleting one unit at a time, i.e. sqrt((n-1)/n times the sum of squared deviations of the leave-one-out values), with n the number of units of the slice that yield a value. Shortcuts used for additive metrics give the same numbers as explicit deletion, in every slice of at least two units in which the metric (and its filtered parts) still has rows after any deletion.',
  ['inputs', 'programs'], 'all tables with any number of units, units spanning slices, all child metrics, filters and splits',
  TST + 'the optimised leave-one-out paths depend on which units occur in which slices.',
  ['operations.py'], [('jackknife', 'operations.py: Jackknife.compute_children, Jackknife.precompute, get_samples, get_stderrs; MetricWithCI.compute_slices; get_sum_ct_monkey_patch_fn; adjust_slices_for_loo')],
  observe=['compute_on result'])
p('C12', 'Bootstrap replicates resample the data as specified',
  'Each bootstrap replicate evaluates the metric on rows (or whole units) drawn with replacement from the slice, keeping the replicate size, and the reported error is the standard deviation of the replicate values; the Poisson variant reweights rows or units by independent Poisson(1) counts. The point estimate is the metric on the original data and repeated runs with the same random state agree. (Resamples in which a filtered part of the metric has no row give no value.)',
  ['inputs', 'configurations'], 'all tables, units, splits, random states and replicate counts',
  'Randomised results are tested for a fixed seed on one table only.',
  ['operations.py'], [('bootstrap', 'operations.py: Bootstrap.get_samples, Bootstrap.get_samples_with_unit, PoissonBootstrap.get_samples, MetricWithCI.compute_slices')],
  observe=['compute_on result under a recorded/replayed source of randomness'])
p('C13', 'The generated SQL computes the same numbers as the dataframe path',
  'For every metric tree that can be translated to SQL, executing the generated query on a table returns the same rows, labels and values as computing the metric on the same data in memory. This covers filters, splits, nesting of operations, column naming and missing values, on slices in which every column has a non-missing value, filters leave a row and denominators are not zero; only split columns are sorted, and a row all of whose values are missing may be absent.',
  ['programs', 'inputs'], 'all metric trees with SQL support, all tables, splits and filters',
  'No existing test generates or executes SQL at all.',
  ['metrics.py', 'operations.py', 'sql.py', 'utils.py', 'diversity.py', 'models.py'],
  [('SQL generation', 'get_sql_columns / get_sql_and_with_clause in metrics.py, operations.py, diversity.py'), ('SQL objects', 'sql.py')],
  observe=['to_sql text executed by an independent interpreter', 'compute_on_sql result'])
p('C14', 'SQL building blocks combine without losing or mixing up parts',
  'Query parts (columns, filters, tables, joins) compose so that every part added is present once, keeps its meaning and gets an alias that is unique and legal within its query; distinct parts never end up under one alias. Merging compatible queries keeps every output column, and query text always nests correctly.',
  ['programs', 'inputs'], 'all sequences of building operations on SQL objects, all column/filter/table expressions including unusual characters',
  'No existing test covers the SQL objects.',
  ['sql.py'], [('SQL objects', 'sql.py: SqlComponents, Filters, Columns, Column, Datasource, Datasources, Join, Sql, is_compatible, get_alias, escape_alias')],
  observe=['str() of SQL objects', 'aliases'])
p('C15', 'Results have the documented shape, names and a lossless long format',
  'Results carry the split columns as index in the given order, one column per metric with the documented name, and the long format contains exactly the same values under metric-name index labels. Converting between wide and long format loses nothing, in either direction, for results with at least one row and distinct metric names.',
  ['inputs', 'programs'], 'all metrics, lists and operations, splits, index layouts and output options',
  'Tests check fixed layouts; the conversions depend on index depth, column levels and names.',
  ['utils.py', 'metrics.py', 'operations.py'],
  [('formatting', 'utils.py: melt, unmelt, apply_name_tmpl, remove_empty_level, stack; metrics.py: Metric.manipulate')],
  observe=['compute_on(melted=...) results'])
p('C16', 'Covariate adjustment uses the pre-period data as documented',
  'The pre/post change of a slice is the percent change between the intercepts of the least-squares regressions of the outcome on the covariates, centred on the slice, fitted per condition; the variance-reduced change (CUPED) is the difference, between each condition and the baseline, of the mean outcome minus theta times the mean centred covariate, with theta fitted over all conditions of the slice. Covariates are supposed to vary in every fit.',
  ['inputs', 'configurations'], 'all tables with pre-period covariates, conditions, splits and stratification columns',
  TST + 'the estimators must hold for all data.',
  ['operations.py'], [('adjustment', 'operations.py: PrePostChange.compute_children, CUPED.compute_children, compute_on_children, PrepostChange.compute_slices')],
  observe=['compute_on result'])
p('C17', 'Diversity measures equal their definitions on category shares',
  'The concentration index, entropy, top-k share and the number of largest categories needed to reach a share are computed from the shares of each category in its slice by their textbook formulas. Ties and categories with zero share are treated consistently in every slice, and a cumulative share that equals the requested one up to rounding counts as reached.',
  ['inputs', 'configurations'], 'all tables, categories, k and share levels, splits and child metrics',
  TST + 'category layouts and ties are unbounded.',
  ['diversity.py'], [('diversity', 'diversity.py: HHI, Entropy, TopK, Nxx compute_on_children')],
  observe=['compute_on result'])
p('C18', 'Regression models return the optimum of their stated objective',
  'A fitted model metric returns the coefficients that optimise the documented least-squares, penalised or logistic objective of the aggregated data in each slice, with intercept and normalisation handled as documented and coefficients labelled by their feature. Computing from aggregated sufficient statistics gives the same coefficients as fitting the rows, whenever the iterations converge (classes of a logistic regression are 0 and 1 there).',
  ['inputs', 'configurations'], 'all well-conditioned tables, feature sets, penalties, splits and groupings',
  TST + 'optimality must hold for all data and option combinations.',
  ['models.py'], [('models', 'models.py: Model.compute_on_children, Ridge, Lasso, ElasticNet, LogisticRegression, compute_through_sql')],
  observe=['compute_on result', 'compute_on_sql(mode="magic") result'])
p('C19', 'The confidence-interval display shows exactly the computed numbers',
  'The rendered table contains for each metric, dimension and experiment the value, ratio and interval of the input rows, marks a change as significant exactly if its interval excludes zero, and respects the requested orders, filters and formats. Rendering never alters the numbers or its arguments. (The input has one row per metric, slice and experiment, with lower bound at most the upper one.)',
  ['inputs', 'configurations'], 'all melted results, display options, orders and missing values',
  'Tests compare a few rendered tables.',
  ['confidence_interval_display.py', 'operations.py'], [('display', 'confidence_interval_display.py: get_formatted_df, render'), ('entry', 'operations.py: MetricWithCI.display')],
  observe=['formatted DataFrame and HTML'])
p('C20', 'The mixed SQL/Python mode returns the same result as pure Python',
  'Computing with leaf metrics evaluated in SQL and the rest in Python returns the same rows, labels and values as computing everything in memory. Filters and splits are applied exactly once at the level they belong to. (On slices in which every column has a non-missing value, filters leave a row and denominators are not zero.)',
  ['programs', 'inputs'], 'all metric trees whose leaves have SQL support, all tables, splits and filters',
  'No existing test runs the SQL modes.',
  ['metrics.py', 'operations.py', 'models.py', 'sql.py'], [('mixed mode', 'metrics.py: compute_through_sql, compute_on_sql_mixed_mode, compute_children_sql; operations.py: Operation/Jackknife/Bootstrap compute_children_sql')],
  observe=['compute_on_sql(mode="mixed") result'])
p('C21', 'Confidence intervals follow from the standard errors',
  'When a confidence level is requested, the reported interval is the point estimate plus and minus the quantile of the stated reference distribution times the standard error of the same row, and the point estimate equals the wrapped metric\'s own value. The wrapper keeps the metric\'s slices and columns and, for comparisons, the base values used in displays belong to the same slice.',
  ['inputs', 'configurations'], 'all tables, confidence levels, child metrics, splits',
  TST + 'they check single cells.',
  ['operations.py'], [('intervals', 'operations.py: MetricWithCI.compute_on_children, construct_ci, get_ci_width, manipulate, final_compute')],
  observe=['compute_on result', 'display base rows'])

import sys
if __name__ == '__main__':
  with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
      f.write(json.dumps(x) + '\n')
  import jsonschema
  sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
  for x in P: jsonschema.validate(x, sch)
  print(len(P))
