From 7b180f8a08d2cffc3d474ae74f3708e76e71765d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 01/39] fix: don't hand out cached results by reference

The result read from the cache is modified in place afterwards (name_tmpl,
column renaming, arithmetic on columns), which corrupted the cached value
for the next metric that reads it.
---
 metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metrics.py b/metrics.py
index 430ec2e..d13b6b6 100644
--- a/metrics.py
+++ b/metrics.py
@@ -355,7 +355,9 @@ class Metric(object):
 
   def get_cached(self, key):
     key = key if isinstance(key, utils.CacheKey) else self.wrap_cache_key(key)
-    return self.cache[key]
+    val = self.cache[key]
+    # The result might be modified in place so don't hand out the cached object.
+    return val.copy() if isinstance(val, (pd.Series, pd.DataFrame)) else val
 
   def in_cache(self, key):
     key = key if isinstance(key, utils.CacheKey) else self.wrap_cache_key(key)
-- 
2.43.0


From 0620d8e8ca09f6b0c3a3f39239549fd30825a822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:05 +0000
Subject: [PATCH 02/39] fix: give composite metrics the fingerprint of Mean
 only for Sum(x) / Count(x)

Any operator on Sum(x) and Count(x) got Mean's fingerprint, the filter of
the composite itself was dropped from it, and the children's shared filter
got lost in the cache key, so wrong cached values were returned.
---
 metrics.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/metrics.py b/metrics.py
index d13b6b6..e5728b4 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1642,9 +1642,16 @@ class CompositeMetric(Metric):
     # Make Sum(x) / Count(x) indistinguishable to Mean(x) in cache.
     s = self.children[0]
     c = self.children[1]
-    if isinstance(s, Sum) and isinstance(
-        c, Count) and s.var == c.var and s.where == c.where and not c.distinct:
-      return Mean(s.var, where=s.where_).get_fingerprint(attr_to_exclude)
+    if (
+        self.name_tmpl == '{} / {}'
+        and isinstance(s, Sum)
+        and isinstance(c, Count)
+        and s.var == c.var
+        and not s.where
+        and not c.where
+        and not c.distinct
+    ):
+      return Mean(s.var, where=self.where_).get_fingerprint(attr_to_exclude)
     return super(CompositeMetric, self).get_fingerprint(attr_to_exclude)
 
 
-- 
2.43.0


From 058158a5c3db4a686dc4e2da8d079df7d2b69a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:28 +0000
Subject: [PATCH 03/39] fix: keep the indexes of the child in the SQL of
 Distribution

---
 operations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/operations.py b/operations.py
index 7cd42d8..7bbaa4a 100644
--- a/operations.py
+++ b/operations.py
@@ -257,6 +257,10 @@ class Distribution(Operation):
     child_table = sql.Datasource(child_sql, 'DistributionRaw')
     child_table_alias = with_data.merge(child_table)
     groupby = sql.Columns(all_split_by.aliases)
+    # The child might have indexes of its own, e.g. when it's an Operation.
+    groupby.add(
+        [c.alias for c in child_sql.all_columns if c.alias in indexes.aliases]
+    )
     columns = sql.Columns()
     for c in child_sql.columns:
       if c.alias in groupby:
-- 
2.43.0


From 8bccaf1ec2968f67c421b1e053aba52bbe233a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:30 +0000
Subject: [PATCH 04/39] fix: count units without any value in the fast SQL of
 Jackknife

---
 operations.py | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/operations.py b/operations.py
index 7bbaa4a..1865878 100644
--- a/operations.py
+++ b/operations.py
@@ -3383,10 +3383,7 @@ def get_jackknife_data_fast(
     split_by,
     extra_index,
     unit AS meterstick_resample_idx,
-    # if needs_adjustment
     total.`sum(X)` - COALESCE(unit.`sum(X)`, 0) AS `sum(X)`
-    # else
-    total.`sum(X)` - unit.`sum(X)` AS `sum(X)`
   FROM
   TotalCount AS total
   RIGHT JOIN  # Or CROSS JOIN (SELECT DISTINCT unit FROM UnitSliceCount)
@@ -3420,13 +3417,9 @@ def get_jackknife_data_fast(
 
   columns_to_preagg = sql.Columns(sql.Column('COUNT(*)', alias='ct'))
   columns_in_loo = sql.Columns()
-  # When there is any filter or Operation inside Jackknife, we need adjustments.
-  needs_adjustment = getattr(
-      metric, 'has_local_filter', False
-  ) or split_by != sql.Columns(indexes)
   # columns_to_preagg and columns_in_loo are filled in-place.
   modified_jk = modify_descendants_for_jackknife_fast(
-      metric, columns_to_preagg, columns_in_loo, global_filter, needs_adjustment
+      metric, columns_to_preagg, columns_in_loo, global_filter
   )
   metric.children = modified_jk.children
 
@@ -3477,7 +3470,6 @@ def modify_descendants_for_jackknife_fast(
     columns_to_preagg,
     columns_in_loo,
     global_filter,
-    needs_adjustment,
 ):
   """Gets the columns for leaf Metrics and modify them for fast Jackknife SQL.
 
@@ -3511,8 +3503,6 @@ def modify_descendants_for_jackknife_fast(
     columns_in_loo: A global container for all metric columns we need in LOO
       table. It's being added in-place.
     global_filter: The filters that can be applied to the whole Metric tree.
-    needs_adjustment: If we need to adjust the slices. See
-      utils.adjust_slices_for_loo() for more discussions.
 
   Returns:
     The modified metric tree.
@@ -3523,10 +3513,8 @@ def modify_descendants_for_jackknife_fast(
   metric = copy.deepcopy(metric)
   local_filter = sql.Filters(metric.where_)
   metric.where = None
-  if needs_adjustment:
-    tmpl = 'total_table.%s - COALESCE(unit_slice_table.%s, 0)'
-  else:
-    tmpl = 'total_table.%s - unit_slice_table.%s'
+  # A unit might have no row in a slice or no value other than NULL.
+  tmpl = 'total_table.%s - COALESCE(unit_slice_table.%s, 0)'
   if isinstance(metric, (metrics.Sum, metrics.Count)):
     filters = sql.Filters(local_filter).remove(global_filter)
     c = sql.Column(metric.var).alias
@@ -3544,7 +3532,7 @@ def modify_descendants_for_jackknife_fast(
   new_children = []
   for m in metric.children:
     modified = modify_descendants_for_jackknife_fast(
-        m, columns_to_preagg, columns_in_loo, global_filter, needs_adjustment
+        m, columns_to_preagg, columns_in_loo, global_filter
     )
     new_children.append(modified)
   metric.children = new_children
-- 
2.43.0


From 8a0adc75866a300aa22ce457a2d3ae6f772d57f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:35 +0000
Subject: [PATCH 05/39] fix: escape SQL aliases that start with a digit

---
 sql.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sql.py b/sql.py
index 0240477..d6f453d 100644
--- a/sql.py
+++ b/sql.py
@@ -74,8 +74,10 @@ def get_alias(c):
 def escape_alias(alias):
   """Replaces special characters in SQL column name alias."""
   special = set(r""" `~!@#$%^&*()-=+[]{}\|;:'",.<>/?""")
-  if not alias or not special.intersection(alias):
+  if not alias:
     return alias
+  if not special.intersection(alias):
+    return 'col_' + alias if alias[0].isdigit() else alias
   escape = {c: '_' for c in special}
   escape.update({
       '!': '_not_',
-- 
2.43.0


From 140b7f7fae778222c042d01b13d23a1d2111ca7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:16 +0000
Subject: [PATCH 06/39] fix: keep the suffix when a SQL column is merged with
 an existing one

---
 sql.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sql.py b/sql.py
index d6f453d..229fc73 100644
--- a/sql.py
+++ b/sql.py
@@ -458,9 +458,11 @@ class Columns(SqlComponents):
     if isinstance(children, str):
       return self.add(Column(children))
     alias, expr = children.alias, children.expression
-    found = self.get_alias(expr)
+    found = [c for c in self if c.expression == expr]
     if found:
-      children.set_alias(found)
+      # The existing Column might have been renamed by adding a suffix.
+      children.alias_raw = found[0].alias_raw
+      children.suffix = found[0].suffix
       return self
     if alias not in self.aliases:
       self.children.append(children)
-- 
2.43.0


From e522fdc94f72fce91f83e4ad35f124056b7b2db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:29 +0000
Subject: [PATCH 07/39] fix: use name_tmpl in the SQL of Distribution and
 CumulativeDistribution

---
 diversity.py  | 7 ++++---
 operations.py | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/diversity.py b/diversity.py
index 8c0916e..37fef7b 100644
--- a/diversity.py
+++ b/diversity.py
@@ -41,11 +41,12 @@ class DiversityBase(operations.Distribution):
     dist_sql, with_data = super(DiversityBase, self).get_sql_and_with_clause(
         table, split_by, global_filter, indexes, local_filter, with_data
     )
-    # Remove 'Distribution of ' in column names.
+    # Remove what name_tmpl has added to the column names in Distribution.
+    prefix = self.name_tmpl.format('')
     for c in dist_sql.columns:
       alias = c.alias_raw
-      if alias.startswith('Distribution of '):
-        c.set_alias(alias[len('Distribution of ') :])
+      if alias.startswith(prefix):
+        c.set_alias(alias[len(prefix) :])
     child_table = sql.Datasource(dist_sql, 'Distribution')
     child_table_alias = with_data.merge(child_table)
     return child_table_alias, dist_sql.columns, with_data
diff --git a/operations.py b/operations.py
index 1865878..9e25dd2 100644
--- a/operations.py
+++ b/operations.py
@@ -268,7 +268,7 @@ class Distribution(Operation):
       col = sql.Column(c.alias) / sql.Column(
           c.alias, 'SUM({})', partition=split_by.aliases
       )
-      col.set_alias('Distribution of %s' % c.alias_raw)
+      col.set_alias(self.name_tmpl.format(c.alias_raw))
       columns.add(col)
     return sql.Sql(groupby.add(columns), child_table_alias), with_data
 
@@ -394,7 +394,7 @@ class CumulativeDistribution(Distribution):
           order=self.get_ordered_col(c.alias) if self.sort_by_values else order,
           window_frame='ROWS BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW',
       )
-      col.set_alias('Cumulative %s' % c.alias_raw)
+      col.set_alias(c.alias_raw)
       columns.add(col)
     return sql.Sql(columns, child_table_alias), with_data
 
-- 
2.43.0


From 5266ec7aef238a50aeaab3f40081f4af4d24ac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:04 +0000
Subject: [PATCH 08/39] fix: support the same name for numerator and
 denominator in MH

---
 operations.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/operations.py b/operations.py
index 9e25dd2..a210f05 100644
--- a/operations.py
+++ b/operations.py
@@ -1255,11 +1255,9 @@ class MH(Comparison):
         self.extra_index) == 1 else self.extra_index
     df_baseline = df_all.xs(self.baseline_key, level=level)
     suffix = '_base'
-    numer = child.children[0].name
-    denom = child.children[1].name
     df_mh = df_all.join(df_baseline, rsuffix=suffix)
-    ka, na = df_mh[numer], df_mh[denom]
-    kb, nb = df_mh[numer + suffix], df_mh[denom + suffix]
+    # The numerator and the denominator might have the same name.
+    ka, na, kb, nb = (df_mh.iloc[:, i] for i in range(4))
     weights = 1. / (na + nb)
     to_split = [i for i in ka.index.names if i not in self.stratified_by]
     res = ((ka * nb * weights).groupby(to_split).sum() /
-- 
2.43.0


From 4f3130cc1c8d763695045fe3514d11e12b2b5d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 09/39] fix: tell child from covariates in mixed mode of
 PrePostChange and CUPED

---
 operations.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/operations.py b/operations.py
index a210f05..dae31e6 100644
--- a/operations.py
+++ b/operations.py
@@ -812,8 +812,9 @@ class PrePostChange(PercentChange):
   def compute_children_sql(self, table, split_by, execute, mode=None):
     child = super(PrePostChange,
                   self).compute_children_sql(table, split_by, execute, mode)
-    covariates = child.iloc[:, 1:]
-    child = child.iloc[:, :1]
+    len_covariates = count_features(self.children[0][1])
+    covariates = child.iloc[:, -len_covariates:]
+    child = child.iloc[:, :-len_covariates]
     return self.adjust_value(child, covariates, split_by)
 
   def get_change_raw_sql(
@@ -1043,8 +1044,9 @@ class CUPED(AbsoluteChange):
   def compute_children_sql(self, table, split_by, execute, mode=None):
     child = super(CUPED, self).compute_children_sql(table, split_by, execute,
                                                     mode)
-    covariates = child.iloc[:, 1:]
-    child = child.iloc[:, :1]
+    len_covariates = count_features(self.children[0][1])
+    covariates = child.iloc[:, -len_covariates:]
+    child = child.iloc[:, :-len_covariates]
     return self.adjust_value(child, covariates, split_by)
 
   def get_change_raw_sql(
-- 
2.43.0


From f5537de5addb915d8e5a5005543971fc302b7727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:13 +0000
Subject: [PATCH 10/39] fix: don't truncate the percentile in the SQL of
 Quantile

---
 metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metrics.py b/metrics.py
index e5728b4..6350e6c 100644
--- a/metrics.py
+++ b/metrics.py
@@ -2156,7 +2156,7 @@ class Quantile(SimpleMetric):
       alias = 'quantile(%s, %s)' % (self.var, self.quantile)
       return sql.Column(
           self.var,
-          'APPROX_QUANTILES({}, 100)[OFFSET(%s)]' % int(100 * self.quantile),
+          'APPROX_QUANTILES({}, 100)[OFFSET(%s)]' % round(100 * self.quantile),
           alias, local_filter)
 
     query = 'APPROX_QUANTILES({}, 100)[OFFSET(%s)]'
@@ -2166,7 +2166,7 @@ class Quantile(SimpleMetric):
       if alias.startswith('0.'):
         alias = 'point_' + alias[2:]
       quantiles.append(
-          sql.Column(self.var, query % int(100 * q), alias, local_filter))
+          sql.Column(self.var, query % round(100 * q), alias, local_filter))
     return sql.Columns(quantiles)
 
   def get_sql_and_with_clause(self, table, split_by, global_filter, indexes,
-- 
2.43.0


From e6dcbe26e9a8e6263d9164bad06c5b368dd0218f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:58 +0000
Subject: [PATCH 11/39] fix: refer to the columns of MetricList children by
 their merged aliases in SQL

---
 metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metrics.py b/metrics.py
index 6350e6c..b62b759 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1337,11 +1337,13 @@ class MetricList(Metric):
         else:
           join = 'FULL' if indexes else 'CROSS'
           from_data = sql.Join(from_data, alias, join=join, using=indexes)
+      # The columns might have been renamed in merge().
+      merged = {c.expression: c for c in with_data.children[alias].columns}
       for c in child_sql.columns:
         if c not in columns:
           columns.add(
               sql.Column(
-                  '%s.%s' % (alias, c.alias),
+                  '%s.%s' % (alias, merged.get(c.expression, c).alias),
                   alias=name_tmpl.format(c.alias_raw),
               )
           )
-- 
2.43.0


From 09ce0c2506dbbc3ffc06cc9b260b5ca35de5464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 12/39] fix: parenthesize SQL conditions whose OR is not
 surrounded by spaces

---
 sql.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sql.py b/sql.py
index 229fc73..6bed5a9 100644
--- a/sql.py
+++ b/sql.py
@@ -184,7 +184,9 @@ class Filter(SqlComponent):
   def __str__(self):
     if not self.cond:
       return ''
-    return '(%s)' % self.cond if ' OR ' in self.cond.upper() else self.cond
+    if re.search(r'\bOR\b', self.cond, re.IGNORECASE):
+      return '(%s)' % self.cond
+    return self.cond
 
 
 class Filters(SqlComponents):
-- 
2.43.0


From df481f45f1014bfd0bc077696ecb70ed0b4f7b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 13/39] fix: remove SQL filters no matter how they were written

---
 sql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sql.py b/sql.py
index 6bed5a9..14da09e 100644
--- a/sql.py
+++ b/sql.py
@@ -199,7 +199,8 @@ class Filters(SqlComponents):
   def remove(self, filters):
     if not filters:
       return self
-    self.children = [c for c in self.children if c not in Filters(filters)]
+    to_remove = Filters(filters).where
+    self.children = [c for c in self.children if str(Filter(c)) not in to_remove]
     return self
 
   def __str__(self):
-- 
2.43.0


From 0619de5e06a65b32262163d22643f4f1271d4571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:06 +0000
Subject: [PATCH 14/39] fix: tell cached bootstrap resamples of different units
 apart

---
 operations.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/operations.py b/operations.py
index dae31e6..eba746c 100644
--- a/operations.py
+++ b/operations.py
@@ -2685,7 +2685,8 @@ class Bootstrap(MetricWithCI):
       for _ in range(self.n_replicates):
         resampled = units_grped.sample(frac=1, replace=True).index
         if use_cache:
-          cache_key = tuple(resampled)
+          # The key needs to tell resamples of different units apart.
+          cache_key = ('_RESERVED', 'Bootstrap', self.unit, tuple(resampled))
           if cache_key in sampled:
             yield cache_key, None
           else:
@@ -2852,7 +2853,10 @@ class PoissonBootstrap(Bootstrap):
         weights = self.get_sample_weight(n)
         cache_key = None
         if use_cache:
-          cache_key = tuple(weights)
+          # The key needs to tell resamples of different units apart.
+          cache_key = (
+              '_RESERVED', 'PoissonBootstrap', self.unit, tuple(weights)
+          )
           if cache_key in sampled:
             yielded = True
             yield cache_key, None
-- 
2.43.0


From 2de02aee12a8a29ca52dd2d4d807dfe848f50548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:55 +0000
Subject: [PATCH 15/39] fix: don't chain old cache keys, bootstraps with many
 cached resamples hit the recursion limit

---
 utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils.py b/utils.py
index a7c29d5..1f33edd 100644
--- a/utils.py
+++ b/utils.py
@@ -333,6 +333,9 @@ class CacheKey:
     self.metric = copy.deepcopy(metric)
     # `where` accumulates the filters so far and already includes metric.where.
     self.metric.where = None
+    # Don't keep the previous keys, which refer to copies with older keys.
+    for m in self.metric.traverse():
+      m.cache_key = None
     split_by = (split_by,) if isinstance(split_by, str) else split_by or ()
     where = [where] if isinstance(where, str) else where or []
     if isinstance(key, CacheKey):
-- 
2.43.0


From b552a4ac6311a955b0f7544c14132c9337713ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:44 +0000
Subject: [PATCH 16/39] fix: don't reuse the cache keys of previous
 computations

---
 metrics.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/metrics.py b/metrics.py
index b62b759..46d168c 100644
--- a/metrics.py
+++ b/metrics.py
@@ -327,11 +327,15 @@ class Metric(object):
     self.cache = {} if cache is None else cache
     split_by = [split_by] if isinstance(split_by, str) else list(split_by or [])
     try:
-      key = self.wrap_cache_key(cache_key or self.cache_key, split_by)
+      if not isinstance(cache_key, utils.CacheKey):
+        # Only root metric gets a raw key. The key it has, if any, is a leftover
+        # from another computation.
+        self.cache_key = None
+      key = self.wrap_cache_key(cache_key, split_by)
+      self.cache_key = key
       if self.in_cache(key):
         raw_res = self.get_cached(key)
       else:
-        self.cache_key = key
         raw_res = compute_fn(df, split_by, *args, **kwargs)
         self.save_to_cache(key, raw_res)
 
-- 
2.43.0


From 7ef4341b4d94a8db1742fd87015fe1af5a13f1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:41 +0000
Subject: [PATCH 17/39] fix: cache the leave-one-out results of Jackknife by
 the data it computes on

---
 operations.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/operations.py b/operations.py
index eba746c..87b3189 100644
--- a/operations.py
+++ b/operations.py
@@ -2370,8 +2370,7 @@ class Jackknife(MetricWithCI):
     Returns:
       None. Two additional results are saved to the cache.
       1. The total sum/count, which is each_bucket summed over self.unit.
-      2. The LOO estimates, which is saved under key
-        ('_RESERVED', 'Jackknife', self.unit).
+      2. The LOO estimates, which is saved under self.get_loo_key().
     """
     if not cache_key.split_by:
       return
@@ -2387,7 +2386,7 @@ class Jackknife(MetricWithCI):
     key = cache_key.replace_split_by(split_by)
     self.save_to_cache(key, total)
 
-    key = cache_key.replace_key(('_RESERVED', 'Jackknife', self.unit))
+    key = cache_key.replace_key(self.get_loo_key())
     if not self.in_cache(key):
       each_bucket = utils.adjust_slices_for_loo(each_bucket, original_split_by,
                                                 df)
@@ -2413,10 +2412,19 @@ class Jackknife(MetricWithCI):
         df,
         split_by + [self.unit],
         True,
-        cache_key=('_RESERVED', 'Jackknife', self.unit),
+        cache_key=self.get_loo_key(),
     )
     return [replicates.unstack(self.unit)]
 
+  def get_loo_key(self):
+    """The key of the leave-one-out results saved in the cache.
+
+    The units to leave out are those in the data self computes on, so the result
+    depends on the filters applied so far, in addition to those of the leaf.
+    """
+    where = tuple(sorted(self.cache_key.where))
+    return ('_RESERVED', 'Jackknife', self.unit, where)
+
   def get_samples(self, df, split_by=None, return_cache_key=False):
     """Yields leave-one-out (LOO) DataFrame with level value.
 
-- 
2.43.0


From 6fafcc9eaee6f942b288a095dee7613b236fd615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:16 +0000
Subject: [PATCH 18/39] fix: compute the Sums and Counts Jackknife needs even
 if its child is in cache

---
 operations.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/operations.py b/operations.py
index 87b3189..166daf6 100644
--- a/operations.py
+++ b/operations.py
@@ -2329,7 +2329,18 @@ class Jackknife(MetricWithCI):
       util, df = utils.get_fully_expanded_equivalent_metric_tree(self, df)
       return self.compute_util_metric_on(util, df, split_by)
 
-    self.compute_child(df, split_by + [self.unit])
+    # The child might be in the cache already while the Sums and Counts in it are
+    # not, so only reuse Sums and Counts.
+    cache = self.cache
+    self.cache = self.find_all_in_cache_by_metric_type(metric=metrics.Sum)
+    self.cache.update({
+        k: v for k, v in cache.items() if k.metric.__class__ == metrics.Count
+    })
+    try:
+      self.compute_child(df, split_by + [self.unit])
+    finally:
+      cache.update(self.cache)
+      self.cache = cache
     precomputed = self.find_all_in_cache_by_metric_type(metric=metrics.Sum)
     precomputed.update(
         self.find_all_in_cache_by_metric_type(metric=metrics.Count)
-- 
2.43.0


From 2fe1ea7f606c6d719f26115ea6ef93056edfba98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:42 +0000
Subject: [PATCH 19/39] fix: don't keep the filters of a computation with a
 cache_key

---
 metrics.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metrics.py b/metrics.py
index 46d168c..dd13c98 100644
--- a/metrics.py
+++ b/metrics.py
@@ -344,6 +344,11 @@ class Metric(object):
     finally:
       if cache_key is None:  # Only root metric can have None as cache_key
         self.clean_up_cache()
+      elif not isinstance(cache_key, utils.CacheKey):
+        # The results are kept for the user but the keys, which have the filters
+        # self is computed under, are not.
+        for m in self.traverse():
+          m.cache_key = None
 
   def wrap_cache_key(self, key, split_by=None, where=None, slice_val=None):
     if key and not isinstance(key, utils.CacheKey) and self.cache_key:
-- 
2.43.0


From 7722bdda1d31f76977330954f1f7cac8eb551e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:18 +0000
Subject: [PATCH 20/39] fix: don't share cached DataFrames between metrics
 whose parts are named differently

---
 utils.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/utils.py b/utils.py
index 1f33edd..67f83ba 100644
--- a/utils.py
+++ b/utils.py
@@ -364,6 +364,17 @@ class CacheKey:
     metric_fingerprint = [
         i for i in metric.get_fingerprint() if i[0] != 'where'
     ]
+    # The fingerprint doesn't have names but the columns of a DataFrame do, which
+    # come from the descendants.
+    tree = list(metric.traverse())
+    if any(m.is_operation or type(m).__name__ == 'MetricList' for m in tree):
+      metric_fingerprint.append(
+          ('names', tuple(m.name for m in tree if m is not metric))
+      )
+      columns = [getattr(m, 'columns', None) for m in tree]
+      metric_fingerprint.append(
+          ('columns', tuple(c if c is None else tuple(c) for c in columns))
+      )
     self.fingerprint = {
         'metric': tuple(metric_fingerprint),
         'key': self.key,
-- 
2.43.0


From 82c0d0b4bf3d22b8bc45946e14f445c9cdef1bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:10 +0000
Subject: [PATCH 21/39] fix: compare cache keys by content, as hash(-1) ==
 hash(-2)

---
 utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.py b/utils.py
index 67f83ba..d065b2c 100644
--- a/utils.py
+++ b/utils.py
@@ -416,7 +416,7 @@ class CacheKey:
     return new_key
 
   def __eq__(self, other):
-    return isinstance(other, CacheKey) and hash(self) == hash(other)
+    return isinstance(other, CacheKey) and self.fingerprint == other.fingerprint
 
   def __hash__(self):
     return hash((
-- 
2.43.0


From 38c19daf56bdf0aed1c9d3c729e277fd0ee7e374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:51 +0000
Subject: [PATCH 22/39] fix: tell apart metrics whose output columns are
 renamed

---
 metrics.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/metrics.py b/metrics.py
index dd13c98..1bdea4d 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1128,7 +1128,13 @@ class MetricList(Metric):
       name = children[0].name
     else:
       name = tmpl.format(', '.join(m.name for m in children))
-    super(MetricList, self).__init__(name, children, where, name_tmpl)
+    super(MetricList, self).__init__(
+        name,
+        children,
+        where,
+        name_tmpl,
+        additional_fingerprint_attrs=['name_tmpl', 'columns'],
+    )
     self.children_return_dataframe = children_return_dataframe
     self.names = [m.name for m in children]
     self.columns = rename_columns
@@ -1425,7 +1431,7 @@ class CompositeMetric(Metric):
         children,
         where,
         name_tmpl,
-        additional_fingerprint_attrs=['name_tmpl'])
+        additional_fingerprint_attrs=['name_tmpl', 'columns'])
     self.op = op
     self.columns = rename_columns
 
@@ -1661,6 +1667,7 @@ class CompositeMetric(Metric):
         and not s.where
         and not c.where
         and not c.distinct
+        and self.columns is None
     ):
       return Mean(s.var, where=self.where_).get_fingerprint(attr_to_exclude)
     return super(CompositeMetric, self).get_fingerprint(attr_to_exclude)
-- 
2.43.0


From f45214a82449cbfd2d246fa381175c0749f5e0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:01 +0000
Subject: [PATCH 23/39] fix: applying an operation to a metric does not change
 the operation

---
 operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operations.py b/operations.py
index 166daf6..6823fdb 100644
--- a/operations.py
+++ b/operations.py
@@ -190,7 +190,7 @@ class Operation(metrics.Metric):
     )
 
   def __call__(self, child: metrics.Metric):
-    op = copy.deepcopy(self) if self.children else self
+    op = copy.deepcopy(self)
     op.name = op.name_tmpl.format(utils.get_name(child))
     op.children = (child,)
     return op
-- 
2.43.0


From 3fb57512d55e1c7fa0d477a312dee1fe9334e7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:20 +0000
Subject: [PATCH 24/39] fix: CompositeMetric.rename_columns had no effect on a
 result without split

---
 metrics.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metrics.py b/metrics.py
index 1bdea4d..5cd2efc 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1443,6 +1443,12 @@ class CompositeMetric(Metric):
     self.name = name
     return self
 
+  def to_dataframe(self, res):
+    res = super(CompositeMetric, self).to_dataframe(res)
+    if self.columns:
+      res.columns = self.columns
+    return res
+
   def compute_children(
       self, df, split_by, melted=False, return_dataframe=True, cache_key=None
   ):
-- 
2.43.0


From be4975308a43075a2e1b55f5cd8c5189b6ff4ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:10 +0000
Subject: [PATCH 25/39] fix: rounding errors in the cumulative share changed
 the count of Nxx

---
 diversity.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/diversity.py b/diversity.py
index 37fef7b..eb834c2 100644
--- a/diversity.py
+++ b/diversity.py
@@ -252,7 +252,9 @@ class Nxx(DiversityBase):
   def nxx_for_one_col(self, col, split_by):
     sorted_col = col.sort_values(split_by + list(col.columns), ascending=False)
     cumsum = self.group(sorted_col, split_by).cumsum()
-    res = self.group(cumsum < self.share, split_by).sum() + 1
+    # The tolerance is for rounding errors in cumsum. It could be 0.999... when
+    # all categories are included.
+    res = self.group(cumsum < self.share - 1e-9, split_by).sum() + 1
     return self.to_dataframe(res)
 
   def get_sql_and_with_clause(
@@ -310,7 +312,7 @@ class Nxx(DiversityBase):
 
       nxx_col = sql.Column(
           cumsum_col.alias,
-          'COUNTIF({} < %s) + 1' % self.share,
+          'COUNTIF({} < %s - 1e-9) + 1' % self.share,
       )
       nxx_col.set_alias(self.name_tmpl.format(c.alias_raw))
       nxx_cols.add(nxx_col)
-- 
2.43.0


From 41d78d461a4a3298a6a3e01b3f97bffa6bf22e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:22 +0000
Subject: [PATCH 26/39] fix: Lasso, ElasticNet and penalised logistic
 regression had complex coefficients in magic mode

---
 models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/models.py b/models.py
index 80ba026..2c36f8e 100644
--- a/models.py
+++ b/models.py
@@ -864,7 +864,7 @@ def fista_for_elastic_net(
   # If we just use 1, depending on how a float is stored, maybe the step_size
   # will be slightly larger than the max allowed? I don't know if it will ever
   # happen but to be safe I use 1 - 1e-6.
-  step_size = (1 - 1e-6) / np.linalg.eigvals(x_t_x).max()
+  step_size = (1 - 1e-6) / np.linalg.eigvalsh(x_t_x).max()
   k = l2 * step_size + 1
   threshold = l1 * step_size / k
 
@@ -1308,7 +1308,7 @@ def fista_for_logistic_regression(
     # If we just use 4, depending on how a float is stored, maybe the step_size
     # will be slightly larger than the max allowed? I don't know if it will ever
     # happen but to be safe I use 3.999999.
-    return 3.999999 / np.linalg.eigvals(x_t_x).max()
+    return 3.999999 / np.linalg.eigvalsh(x_t_x).max()
 
   if not split_by:
     step_size = np.array([get_step_size(sufficient_stats)])
-- 
2.43.0


From fa60ea0759fa713f521a2a18b629b0a10ae4f6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:55 +0000
Subject: [PATCH 27/39] fix: Lasso and ElasticNet ignored positive=True in
 magic mode

---
 models.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/models.py b/models.py
index 2c36f8e..f351fa2 100644
--- a/models.py
+++ b/models.py
@@ -674,6 +674,7 @@ class Lasso(Model):
         self.name,
         tol=self.tol,
         max_iter=self.max_iter,
+        positive=self.model.positive,
     ).compute_on_sql_magic_mode(table, split_by, execute)
 
 
@@ -756,6 +757,7 @@ class ElasticNet(Model):
         self.fit_intercept,
         self.tol,
         self.max_iter,
+        self.model.positive,
     )
     if self.fit_intercept and self.normalize:
       coef = compute_normalized_coef(coef, norms, avgs, split_by)
@@ -766,7 +768,14 @@ class ElasticNet(Model):
 
 
 def compute_coef_for_elastic_net(
-    sufficient_stats_elements, xs, l1, l2, fit_intercept, tol, max_iter
+    sufficient_stats_elements,
+    xs,
+    l1,
+    l2,
+    fit_intercept,
+    tol,
+    max_iter,
+    positive=False,
 ):
   """Computes the coefficients for ElasticNet. Lasso is just a special case."""
   if fit_intercept:
@@ -778,7 +787,7 @@ def compute_coef_for_elastic_net(
   )
   init_guess = np.random.random(*x_t_y.shape)
   coef = fista_for_elastic_net(
-      init_guess, l1, l2, x_t_x, x_t_y, tol, max_iter, fit_intercept
+      init_guess, l1, l2, x_t_x, x_t_y, tol, max_iter, fit_intercept, positive
   )
   columns = list(xs.aliases)
   if fit_intercept:
@@ -825,7 +834,7 @@ def center_x(sufficient_stats_elements, n):
 
 
 def fista_for_elastic_net(
-    coef, l1, l2, x_t_x, x_t_y, tol, max_iter, fit_intercept
+    coef, l1, l2, x_t_x, x_t_y, tol, max_iter, fit_intercept, positive=False
 ):
   """Applies FISTA algorithm to elastic net.
 
@@ -856,6 +865,7 @@ def fista_for_elastic_net(
     tol: The tolerance for the optimization.
     max_iter: The maximum number of iterations.
     fit_intercept: If the coefficients include an intercept.
+    positive: If the coefficients except the intercept must not be negative.
 
   Returns:
     The converged coef, namely, the coefficients of the model.
@@ -876,6 +886,9 @@ def fista_for_elastic_net(
       coef[1:] = soft_thresholding(coef[1:] / k, threshold)
     else:
       coef = soft_thresholding(coef / k, threshold)
+    if positive:
+      start = 1 if fit_intercept else 0
+      coef[start:] = np.maximum(coef[start:], 0)
     delta = coef - coef_old
     if abs(delta).sum() < tol:
       return coef
-- 
2.43.0


From 1e0a019197b28da557addb3c9517ebfd8b042467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:51 +0000
Subject: [PATCH 28/39] fix: Lasso, ElasticNet and penalised logistic
 regression could stop before the optimum in magic mode

---
 models.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/models.py b/models.py
index f351fa2..65fd044 100644
--- a/models.py
+++ b/models.py
@@ -890,7 +890,8 @@ def fista_for_elastic_net(
       start = 1 if fit_intercept else 0
       coef[start:] = np.maximum(coef[start:], 0)
     delta = coef - coef_old
-    if abs(delta).sum() < tol:
+    # With the momentum coef can pause away from the optimum, e.g., at 0.
+    if abs(delta).sum() < tol and abs(coef - v).sum() < tol:
       return coef
   print("WARNING: Lasso/ElasticNet didn't converge! Try increasing `max_iter`.")
   return coef
@@ -1366,7 +1367,10 @@ def fista_for_logistic_regression(
           coef[pending] / k[pending], threshold[pending]
       )
     delta[pending] = coef[pending] - coef_old[pending]
-    converged[pending] = abs(delta[pending]).max(1) < tol
+    # With the momentum coef can pause away from the optimum, e.g., at 0.
+    converged[pending] = (abs(delta[pending]).max(1) < tol) & (
+        abs(coef[pending] - v[pending]).max(1) < tol
+    )
     if all(converged):
       return coef
   if n_slice == 1:
-- 
2.43.0


From 30c26775ab9577c8b5b67d22b27252f185da1d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:44 +0000
Subject: [PATCH 29/39] fix: PrePostChange and CUPED dropped covariates given
 without a child

---
 operations.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/operations.py b/operations.py
index 6823fdb..2da8dca 100644
--- a/operations.py
+++ b/operations.py
@@ -717,6 +717,12 @@ class PrePostChange(PercentChange):
         **kwargs,
     )
     self.extra_index = condition_column
+    self.covariates = covariates
+
+  def __call__(self, child: metrics.Metric):
+    if self.covariates and not self.children:
+      child = metrics.MetricList((child, self.covariates))
+    return super(PrePostChange, self).__call__(child)
 
   def compute_children(
       self,
@@ -963,6 +969,12 @@ class CUPED(AbsoluteChange):
         **kwargs,
     )
     self.extra_index = condition_column
+    self.covariates = covariates
+
+  def __call__(self, child: metrics.Metric):
+    if self.covariates and not self.children:
+      child = metrics.MetricList((child, self.covariates))
+    return super(CUPED, self).__call__(child)
 
   def compute_children(self,
                        df,
-- 
2.43.0


From dcfee429875a65e8ebc51b91ca82bc65a1fb364d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:15 +0000
Subject: [PATCH 30/39] fix: display() missed the control if condition columns
 mix integers and floats

---
 operations.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/operations.py b/operations.py
index 2da8dca..faa8ac0 100644
--- a/operations.py
+++ b/operations.py
@@ -1585,8 +1585,11 @@ def get_display_fn(name,
       if len(condition_column) == 1:
         condition_col = condition_column[0]
       else:
-        res['_expr_id'] = res[condition_column].agg(tuple, axis=1).astype(str)
-        control = str(control)
+        # Without astype(), integers next to floats would become floats and the
+        # control would not be found.
+        ids = res[condition_column].astype(object).agg(tuple, axis=1)
+        res['_expr_id'] = ids.astype(str)
+        control = next((str(i) for i in ids if i == control), str(control))
         condition_col = '_expr_id'
 
     metric_formats = (
-- 
2.43.0


From 69d49b7ecf115ec122eb21884c6f709fe28fb10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:15 +0000
Subject: [PATCH 31/39] fix: rows without dimension, description or control
 were not displayed

---
 confidence_interval_display.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/confidence_interval_display.py b/confidence_interval_display.py
index 667df7a..ecb43b0 100644
--- a/confidence_interval_display.py
+++ b/confidence_interval_display.py
@@ -151,7 +151,7 @@ def _sorted_long_to_wide(df, dims, sort_by):
   # pivot_table() doesn't work if there's NA.
   # https://github.com/pandas-dev/pandas/issues/18030#issuecomment-340442023
   df = (
-      df.groupby(existing_index_cols + ['Metric'], observed=True)
+      df.groupby(existing_index_cols + ['Metric'], observed=True, dropna=False)
       .agg('mean')
       .unstack(-1)
   )
@@ -264,7 +264,8 @@ def _pre_aggregate_df(
         df['Description'] = is_ctrl
       else:
         df['Description'] = df['Description'].where(
-            df['Description'].astype(bool), is_ctrl)  # Only fills empty cells
+            df['Description'].fillna('').astype(bool), is_ctrl
+        )  # Only fills empty cells
 
   if show_control:
     if 'Is_Control' in df:
@@ -440,9 +441,9 @@ def dimension_formatter(x,
   description = x.get('Description')
   expr_id = x.get('Experiment_Id')
   d = []
-  if description:
+  if description and not pd.isnull(description):
     d.append(span(description, 'ci-display-description-text'))
-  if expr_id:
+  if expr_id is not None and expr_id != '':  # The id could be 0.
     d.append(span(expr_id, 'ci-display-experiment-id'))
   if slice_info:
     d.append(span(slice_info, 'ci-display-dimension'))
@@ -555,6 +556,11 @@ def _add_is_control_and_control_id(df, ctrl_id):
     ctrl_id_lookup[ctrl] = ctrl  # The control of a control is itself.
   df['Is_Control'] = df['Experiment_Id'].apply(lambda k: k in ctrl_id)
   df['Control_Id'] = df['Experiment_Id'].apply(ctrl_id_lookup.get)
+  if df['Control_Id'].isnull().any():
+    # Missing ids would turn integer ids to floats.
+    df['Control_Id'] = pd.Series(
+        [ctrl_id_lookup.get(k) for k in df['Experiment_Id']], df.index, object
+    )
   return df
 
 
-- 
2.43.0


From 929755b07e7054790408597a0df44fc18bd8c1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:15 +0000
Subject: [PATCH 32/39] fix: ordering the display by a list lost unlisted
 values or added a column

---
 confidence_interval_display.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/confidence_interval_display.py b/confidence_interval_display.py
index ecb43b0..ec37347 100644
--- a/confidence_interval_display.py
+++ b/confidence_interval_display.py
@@ -166,12 +166,18 @@ def _sorted_long_to_wide(df, dims, sort_by):
       sorting_cols.append(col)
       ascending.append(s.get('ascending', True))
       if 'order' in s:
+        vals = df[col] if col in df else df.index.get_level_values(col)
+        order = list(s['order'])
+        # Values missing in the 'order' would become NA otherwise.
+        order += [v for v in vals.dropna().unique() if v not in order]
         if col in df:
-          df[col] = pd.Categorical(df[col], s['order'], ordered=True)
+          df[col] = pd.Categorical(df[col], order, ordered=True)
         else:
           df.reset_index(col, inplace=True)
-          df[col] = pd.Categorical(df[col], s['order'], ordered=True)
-          df.set_index(col, append=True, inplace=True)
+          df[col] = pd.Categorical(df[col], order, ordered=True)
+          df.set_index(
+              col, append=len(existing_index_cols) > 1, inplace=True
+          )
   if sorting_cols:
     df = df.sort_values(sorting_cols, ascending=ascending)
   # Collects [Value, Ratio, CI_Lower, CI_Upper] for each Metric * slice. val_col
-- 
2.43.0


From a56d547fbf019b8e93ad0796ddfb1dbba3d3ade9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:15 +0000
Subject: [PATCH 33/39] fix: inconsistent control values were displayed or
 crashed the display

---
 confidence_interval_display.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/confidence_interval_display.py b/confidence_interval_display.py
index ec37347..f21a17f 100644
--- a/confidence_interval_display.py
+++ b/confidence_interval_display.py
@@ -506,7 +506,7 @@ def add_control_rows(df, dims):
       'Control_Value'
   ]
   control_vals = grp.agg(['max', 'min'])
-  thresh = 1**-5
+  thresh = 10**-5
   ambiguous_vals = control_vals[control_vals['max'] -
                                 control_vals['min'] > thresh]
   msg = ('Warning: Metric "%s" of control %s in slice %s has inconsistent '
@@ -514,12 +514,13 @@ def add_control_rows(df, dims):
   for k in ambiguous_vals.iterrows():
     print(msg % (k[0][0], k[0][1], k[0][2:]))
   valid_ctrl = control_vals[control_vals['max'] -
-                            control_vals['min'] < thresh][['min']]
+                            control_vals['min'] <= thresh][['min']]
   valid_ctrl.reset_index(inplace=True)
   valid_ctrl['Experiment_Id'] = valid_ctrl['Control_Id']
-  if valid_ctrl.shape[0]:
-    new_ctrl_rows = curr_ctrl_rows.merge(
-        valid_ctrl, 'outer', ['Experiment_Id', 'Control_Id', 'Metric'] + dims)
+  if not valid_ctrl.shape[0]:
+    return df
+  new_ctrl_rows = curr_ctrl_rows.merge(
+      valid_ctrl, 'outer', ['Experiment_Id', 'Control_Id', 'Metric'] + dims)
   new_ctrl_rows['Value'] = new_ctrl_rows['Value'].fillna(new_ctrl_rows['min'])
   new_ctrl_rows.drop(columns='min', inplace=True)
   new_ctrl_rows['Is_Control'] = True
-- 
2.43.0


From 4454e70eb77f0b3c03e023f5a65013433ca5f47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:15 +0000
Subject: [PATCH 34/39] fix: experiment id 0, Control_Id and integer ids next
 to floats were displayed wrongly

---
 confidence_interval_display.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/confidence_interval_display.py b/confidence_interval_display.py
index f21a17f..bcea22a 100644
--- a/confidence_interval_display.py
+++ b/confidence_interval_display.py
@@ -196,7 +196,10 @@ def _merge_dimensions(df, dims):
   agg_cols = dims + ['Experiment_Id', 'Is_Control', 'Description']
   agg_cols = [c for c in agg_cols if c in df]
   if agg_cols:
-    df['Dimensions'] = df[agg_cols].apply(lambda row: row.to_dict(), axis=1)
+    # Without astype(), integers next to floats would be displayed as floats.
+    df['Dimensions'] = (
+        df[agg_cols].astype(object).apply(lambda row: row.to_dict(), axis=1)
+    )
     df.drop(columns=agg_cols + ['Control_Id'], inplace=True, errors='ignore')
     # Make 'Dimensions' the first column.
     # df[['Dimensions'] + df.columns[:-1].tolist()] will fail when metric aren't
@@ -482,7 +485,9 @@ def _get_formatter(df,
   """
   custom_formatter = {}
   for i, col in enumerate(df.columns):
-    if col in dims + ['Experiment_Id', 'Is_Control', 'Description']:
+    if col in dims + [
+        'Control_Id', 'Experiment_Id', 'Is_Control', 'Description'
+    ]:
       custom_formatter[i] = '<div>{}</div>'.format
     elif col == 'Dimensions':
       custom_formatter[i] = dimension_formatter
@@ -728,7 +733,7 @@ def get_formatted_df(
   if metric_order:
     # Sort metric order based on the given argument or default metric order.
     columns = ['Dimensions'] if aggregate_dimensions else dims[:]
-    columns += ['Experiment_Id', 'Is_Control', 'Description']
+    columns += ['Control_Id', 'Experiment_Id', 'Is_Control', 'Description']
     columns += list(metric_order)
     # Column names are not always the same type.
     column_order = pd.array([c for c in columns if c in formatted_df],
-- 
2.43.0


From c5795c45fb938e9a1c9f0b78f62c299410dfdfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:15 +0000
Subject: [PATCH 35/39] fix: rendering changed the given options

---
 confidence_interval_display.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/confidence_interval_display.py b/confidence_interval_display.py
index bcea22a..c96c526 100644
--- a/confidence_interval_display.py
+++ b/confidence_interval_display.py
@@ -335,7 +335,7 @@ class MetricFormatter(object):
                metric_formats=None,
                if_flip_color=None,
                hide_null_ctrl=False):
-    metric_formats = metric_formats or {}
+    metric_formats = dict(metric_formats or {})
     metric_formats.setdefault('Value', 'absolute')
     metric_formats.setdefault('Ratio', 'absolute')
     self.if_flip_color = if_flip_color
@@ -714,9 +714,10 @@ def get_formatted_df(
     for i, d in enumerate(dims):
       col_rename[d] = 'Dim_%s' % (i + 1)
     dims = ['Dim_%s' % i for i in range(1, len(dims) + 1)]
-  sort_by = sort_by or []
-  for s in sort_by:
-    s['column'] = col_rename.get(s['column'], s['column'])
+  sort_by = [
+      dict(s, column=col_rename.get(s['column'], s['column']))
+      for s in sort_by or []
+  ]
   df_renamed = df.rename(columns=col_rename)
   formatted_df = _pre_aggregate_df(
       df_renamed,
-- 
2.43.0


From dfd9abf59ade7258ed39ec31c36355ef6bf18216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:56 +0000
Subject: [PATCH 36/39] fix: hash units and replicates with a separator in
 PoissonBootstrap on SQL

---
 operations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/operations.py b/operations.py
index faa8ac0..2cca762 100644
--- a/operations.py
+++ b/operations.py
@@ -2943,7 +2943,7 @@ class PoissonBootstrap(Bootstrap):
     because the table has been preaggregated, then we explicitly SELECT those
     columns instead of using '*'. Second, RAND() is used when sampling by row.
     When we need to sample by groups, we use
-    FARM_FINGERPRINT(CONCAT(CAST(grp AS STRING),
+    FARM_FINGERPRINT(CONCAT(CAST(grp AS STRING), '_',
       CAST(meterstick_resample_idx AS STRING)))
       / 0xFFFFFFFFFFFFFFFF + 0.5
     to get the uniformly distributed random variable. The hashing makes sure
@@ -3042,7 +3042,9 @@ class PoissonBootstrap(Bootstrap):
         else split_by.original_columns
     )
     if self.unit:
-      cols = ', '.join(
+      # The separator keeps e.g. unit 1 in replicate 11 and unit 11 in replicate 1
+      # apart.
+      cols = ", '_', ".join(
           map(
               'CAST({} AS STRING)'.format,
               (split_by_cols or []) + [self.unit, 'meterstick_resample_idx'],
-- 
2.43.0


From b9830e940ca4d112178119f037b8f1d2cefecb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:29:35 +0000
Subject: [PATCH 37/39] fix: weighted Quantile mixed values of other slices in
 when split by categorical columns

---
 metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metrics.py b/metrics.py
index 5cd2efc..5766a86 100644
--- a/metrics.py
+++ b/metrics.py
@@ -2146,7 +2146,9 @@ class Quantile(SimpleMetric):
             [res],
             columns=[self.name_tmpl.format(self.var, q) for q in self.quantile])
 
-      aggregated_weight = df.groupby(split_by + [self.var])[self.weight].sum()
+      aggregated_weight = self.group(df, split_by + [self.var])[
+          self.weight
+      ].sum()
       # See https://en.wikipedia.org/wiki/Percentile#Weighted_percentile.
       weighted_quantiles = (
           self.group(aggregated_weight, split_by).cumsum()
-- 
2.43.0


From c8f9a062ecb3a291ecb0714f4b5f7d7bee065c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:29:35 +0000
Subject: [PATCH 38/39] fix: MH returned rows for categories without data

---
 operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operations.py b/operations.py
index 2cca762..f6900af 100644
--- a/operations.py
+++ b/operations.py
@@ -1274,7 +1274,7 @@ class MH(Comparison):
     ka, na, kb, nb = (df_mh.iloc[:, i] for i in range(4))
     weights = 1. / (na + nb)
     to_split = [i for i in ka.index.names if i not in self.stratified_by]
-    res = ((ka * nb * weights).groupby(to_split).sum() /
+    res = ((ka * nb * weights).groupby(to_split, observed=True).sum() /
            (kb * na * weights).groupby(to_split, observed=True).sum() - 1) * 100
     res.name = child.name
     to_split = [i for i in to_split if i not in self.extra_index]
-- 
2.43.0


From 3c99ce49f6f9d2d4f72730aa7a981d5d7065bd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:39:09 +0000
Subject: [PATCH 39/39] fix: a query with a WITH clause passed as the data
 source lost the clause

---
 sql.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sql.py b/sql.py
index 14da09e..4b6a006 100644
--- a/sql.py
+++ b/sql.py
@@ -19,6 +19,7 @@ from __future__ import print_function
 
 import collections
 from collections import abc
+import copy
 import functools
 import re
 from typing import Iterable, Optional, Text, Union
@@ -725,6 +726,9 @@ class Sql(SqlComponent):
     from_data_table = from_data.table
     if isinstance(from_data_table, Sql) and not self.from_data.is_table:
       if from_data_table.with_data:
+        # Don't modify the query passed in.
+        self.from_data = from_data = copy.deepcopy(from_data)
+        from_data_table = from_data.table
         with_data_to_merge = from_data_table.with_data
         from_data_table.with_data = None
         self.from_data = Datasource(
-- 
2.43.0

