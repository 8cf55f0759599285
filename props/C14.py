"""C14: SQL building blocks combine without losing or mixing up parts."""
import copy
import re

from engine import compare
from engine import obligation as O
from engine.sqlx import parse, run

P = 'C14'
LEVEL = 'proof'
TECHNIQUE = ('contract-based deductive verification: metrics on a table '
             'given as a subquery, and melted ones, equal compute_on for '
             'every table (queries evaluated relationally under BigQuery '
             'contracts, discharged by z3); the building blocks themselves '
             'are driven with generated inputs (bounded), judged by a strict '
             'BigQuery interpreter (engine/sqlx)')
NOTE = ('Proved: that columns, filters and sources of the catalogue '
             'metrics end up in one query with the right meaning, for all '
             'tables. String handling (aliases, operators in filters) is '
             'bounded: generated inputs.')
FNS = ['sql.Columns', 'sql.Column', 'sql.Filters', 'sql.Filter',
       'sql.Datasources', 'sql.Datasource', 'sql.Sql', 'sql.Join',
       'sql.escape_alias']
LEGAL = re.compile(r'^(?:[A-Za-z_]\w*|[^\W\d]\w*)$')
EXPR = ['x', 'y', 'w', 'x + y', 'x - w', 'x * w', '2 * x', 'x + 1']
FN = ['{}', 'SUM({})', 'COUNT({})', 'AVG({})', 'MAX({})', 'SUM({} + 1)']
CONDS = ['x > 0', 'y < 2', 'w > 1', 'x > 0 or y > 0', 'x > 0 OR w < 3',
         'g = "a"', 'g == "a" or g == "b"', '(x > 0 and y > 0)', 'x > 0 Or y < 1',
         'x > 0\nor y > 1', 'NOT x > 1', 'g = "a or b"', 'x > y']
ODD = ["a b", "1st", "x(%)", "a-b", "a.b", "`q`", "a/b", "tau*2", "9", "$x", "@v",
       "a  b", "_a", "A>B", "a:b", "p'q", 'p"q', "é", "x__y", "sum(x)", "a=b",
       "a,b", "a;b", "a\\b", "x^2", "{z}", "a!b", "?", "~t", "a&b|c"]


def table(rng, n=None, keys=('g', 'h')):
  n = n or rng.randint(4, 12)
  rows = [{'x': rng.choice(O.NUMS), 'y': rng.choice(O.NUMS),
           'w': rng.choice(O.POS), 'g': rng.choice('abc'),
           'h': rng.choice('ab')} for _ in range(n)]
  return rows, O.to_df({'x': 'num', 'y': 'num', 'w': 'pos', 'g': 'key',
                        'h': 'key'}, rows)


def rel(df):
  """Multiset of rows, values normalised."""
  def v(z):
    if z is None or (isinstance(z, float) and z != z):
      return None
    return round(float(z), 7) if not isinstance(z, str) else z
  return sorted((tuple(v(z) for z in r) for r in df.itertuples(
      index=False, name=None)), key=repr)


def query(text, df, case):
  try:
    return run.run(text, {'T': df})
  except parse.SqlUnsupported:
    return None
  except parse.SqlError as e:
    raise O.Mismatch('the query is not valid: %s' % e, dict(case, sql=str(
        text)))


# ------------------------------------------------------------ aliases
@O.suite('C14.escape', P, ['sql.escape_alias'], 300, 4000,
         what='aliases are legal identifiers, stable under escaping again')
def escape(ms, rng, i):
  sql = ms.sql
  if i < len(ODD):
    a = ODD[i]
  else:
    a = ''.join(rng.choice('ab1_X .%()-+/*^$@!`\'"\\:;,<>=?~#&[]{}|é')
                for _ in range(rng.randint(1, 8)))
  if not re.search(r'[A-Za-z]', a):
    a = 'k' + a if rng.random() < .5 else a + 'k'
  out = sql.escape_alias(a)
  if not LEGAL.match(out):
    raise O.Mismatch('escape_alias(%r) = %r' % (a, out), {'alias': a})
  if re.match(r'^[A-Za-z]\w*$', a) and out != a:
    raise O.Mismatch('the legal name %r became %r' % (a, out), {'alias': a})
  if sql.escape_alias(out) != out:
    raise O.Mismatch('escaping %r twice: %r, %r' % (
        a, out, sql.escape_alias(out)), {'alias': a})
  c = sql.Column('x', 'SUM({})', a)
  t = str(c)
  if t != 'SUM(x) AS %s' % c.alias or not LEGAL.match(c.alias):
    raise O.Mismatch('column text %r' % t, {'alias': a})
  return 'legal' if out == a else 'escaped'


def column(sql, rng, named=None):
  e, f = rng.choice(EXPR), rng.choice(FN)
  alias = rng.choice([None, None, 'x', 'a', 'a_1', 'sum(x)', 'b c'] + ODD[:6])
  filters = rng.choice([None, None, 'x > 0', ['y > 0', 'x > 0']])
  return sql.Column(e, f, alias, filters)


@O.suite('C14.columns', P, ['sql.Columns.add', 'sql.Columns.difference',
                            'sql.Column.alias'], 120, 3000,
         what='every expression added is present once under a unique legal '
         'alias, and the column added refers to it')
def columns(ms, rng, i):
  sql = ms.sql
  cols = sql.Columns()
  added = []
  for _ in range(rng.randint(1, 9)):
    if rng.random() < .25 and added:
      c = copy.deepcopy(rng.choice(added))
      c.set_alias(rng.choice(['a', 'zz', 'sum(x)']))
      c.suffix = 0
    else:
      c = column(sql, rng)
    expr, raw = c.expression, c.alias_raw
    before = [(b.expression, b.alias) for b in cols]
    how = rng.randint(0, 2)
    if how == 0:
      cols.add(c)
    elif how == 1:
      cols.add([c])
    else:
      cols.add(sql.Columns(c))
    added.append(c)
    case = {'added': [(a.expression, a.alias) for a in added],
            'columns': str(cols)}
    if c.expression != expr:
      raise O.Mismatch('adding changed the expression %r' % expr, case)
    if [(b.expression, b.alias) for b in cols][:len(before)] != before:
      raise O.Mismatch('adding %r changed the columns present' % expr, case)
    es, al = [b.expression for b in cols], [b.alias for b in cols]
    if len(set(al)) != len(al):
      raise O.Mismatch('duplicate aliases %s' % al, case)
    if len(set(es)) != len(es):
      raise O.Mismatch('an expression twice: %s' % es, case)
    for a in added:
      if es.count(a.expression) != 1:
        raise O.Mismatch('column %r lost' % a.expression, case)
      if al[es.index(a.expression)] != a.alias:
        raise O.Mismatch('%r is called %r but refers to %r' % (
            a.expression, al[es.index(a.expression)], a.alias), case)
    for z in al:
      if not LEGAL.match(z):
        raise O.Mismatch('illegal alias %r' % z, case)
    if cols.aliases != al:
      raise O.Mismatch('aliases', case)
  other = sql.Columns(copy.deepcopy(rng.sample(list(cols), rng.randint(
      0, len(cols)))))
  left = cols.difference(other)
  want = [str(c) for c in cols if str(c) not in [str(o) for o in other]]
  if [str(c) for c in left] != want:
    raise O.Mismatch('difference %s, expected %s' % (left, want), {})
  return len(added)


# ------------------------------------------------------------ filters
def passes(cond, df):
  return list(run.run('SELECT IF(%s, 1, 0) AS v FROM T' % cond.replace(
      '==', '='), {'T': df})['v'])


@O.suite('C14.filters', P, ['sql.Filters', 'sql.Filter', 'sql.Filters.remove'],
         150, 4000, what='filters combine to the conjunction of what was added')
def filters(ms, rng, i):
  sql = ms.sql
  _, df = table(rng, 12)
  conds = [rng.choice(CONDS) for _ in range(rng.randint(1, 4))]
  f = sql.Filters(conds[0])
  for c in conds[1:]:
    f.add([c, sql.Filter(c), sql.Filters(c), [c], (c,)][rng.randint(0, 4)])
  if i % 3 == 0:
    f = sql.Filters(f)
  removed = []
  if i % 4 == 1:
    removed = rng.sample(conds, 1)
    f.remove(removed[0] if i % 8 == 1 else sql.Filters(removed))
  case = {'conditions': conds, 'removed': removed, 'filters': str(f)}
  want = [1] * len(df)
  for c in conds:
    if c not in removed:
      want = [a and b for a, b in zip(want, passes(c, df))]
  if not str(f):
    got = [1] * len(df)
  else:
    r = query('SELECT IF(%s, 1, 0) AS v FROM T' % f, df, case)
    if r is None:
      return None
    got = list(r['v'])
    r = query(sql.Sql('x', 'T', f), df, case)
    if r is not None and len(r) != sum(want):
      raise O.Mismatch('WHERE %s keeps %d rows, expected %d' % (
          f, len(r), sum(want)), case)
  if got != want:
    raise O.Mismatch('filter %s passes %s, expected %s' % (f, got, want), case)
  # order and repetition do not matter
  p = conds[:] + [conds[0]]
  rng.shuffle(p)
  if not removed and sql.Filters(p) != sql.Filters(conds):
    raise O.Mismatch('filters %s and %s differ' % (
        sql.Filters(p), sql.Filters(conds)), case)
  return len(conds), bool(removed)


@O.suite('C14.filtered_column', P, ['sql.Column.expression'], 80, 1500,
         what='a filtered column aggregates the rows that pass')
def filtered(ms, rng, i):
  sql = ms.sql
  _, df = table(rng, 12)
  conds = rng.sample(CONDS, rng.randint(1, 2))
  e = rng.choice(EXPR)
  f = rng.choice(['SUM({})', 'COUNT({})', 'MAX({})', 'AVG({})'])
  c = sql.Column(e, f, 'v', conds)
  case = {'column': str(c)}
  got = query('SELECT %s FROM T' % c, df, case)
  want = query('SELECT %s AS v FROM T WHERE %s' % (f.format(e), ' AND '.join(
      '(%s)' % z.replace('==', '=') for z in conds)), df, case)
  if got is None or want is None:
    return None
  if rel(got) != rel(want):
    raise O.Mismatch('%s is %s, expected %s' % (c, rel(got), rel(want)), case)
  return f


# ------------------------------------------------------------ arithmetic
def arith(sql, rng, depth):
  """(Column or number, python evaluator of a row)."""
  if depth == 0 or rng.random() < .15:
    k = rng.randint(0, 5)
    if k == 0:
      v = rng.choice([2, 3, 0.5, -2, 1])
      return v, lambda r: v
    c = rng.choice(['x', 'y', 'w'])
    if k == 1:
      return sql.Column('%s + 1' % c, alias='p'), lambda r: r[c] + 1
    if k == 2:
      return sql.Column('%s - w' % c, alias='q'), lambda r: r[c] - r['w']
    return sql.Column(c), lambda r: r[c]
  op = rng.choice(['+', '-', '*', '/', 'neg', '-', '+', '/'])
  a, fa = arith(sql, rng, depth - 1)
  if op == 'neg':
    if isinstance(a, (int, float)):
      return -a, lambda r: -fa(r)
    return -a, lambda r: None if fa(r) is None else -fa(r)
  b, fb = arith(sql, rng, depth - 1)
  if isinstance(a, (int, float)) and isinstance(b, (int, float)):
    b, fb = sql.Column('w'), lambda r: r['w']

  def ev(r):
    x, y = fa(r), fb(r)
    if x is None or y is None:
      return None
    if op == '/':
      return None if y == 0 else x / y
    return x + y if op == '+' else x - y if op == '-' else x * y
  c = a + b if op == '+' else a - b if op == '-' else a * b if (
      op == '*') else a / b
  return c, ev


@O.suite('C14.arithmetic', P, ['sql.Column.__add__', 'sql.Column.__sub__',
                               'sql.Column.__mul__', 'sql.Column.__truediv__',
                               'sql.add_parenthesis_if_needed'], 250, 8000,
         what='arithmetic on columns is arithmetic on their values, whatever '
         'the nesting')
def arithmetic(ms, rng, i):
  sql = ms.sql
  rows, df = table(rng, 6)
  c, f = arith(sql, rng, rng.randint(1, 3))
  if isinstance(c, (int, float)):
    return None
  case = {'column': str(c)}
  r = query('SELECT %s AS v FROM T' % c.expression, df, case)
  if r is None:
    return None
  for z, got in zip(rows, r['v']):
    want = f(z)
    got = None if got is None or got != got else got
    if not compare.close(got, want, 1e-7):
      raise O.Mismatch('%s is %s, expected %s' % (c.expression, got, want),
                       dict(case, row=z))
  return str(c).count('(')


# ------------------------------------------------------------ merging
def any_sql(sql, rng, source='T', grouped=None):
  g = rng.choice([(), ('g',), ('g', 'h'), ('h',)]) if grouped is None else (
      grouped)
  cols = []
  for _ in range(rng.randint(1, 4)):
    cols.append(sql.Column(
        rng.choice(EXPR[:5]), rng.choice(['SUM({})', 'COUNT({})', 'MAX({})']),
        rng.choice([None, 'a', 'b', 'a_1', 'sum(x)']),
        rng.choice([None, None, 'x > 0'])))
  where = rng.choice([None, None, 'x > 0', ['x > 0', 'w > 1']])
  return sql.Sql(cols, source, where, g)


def consistent(r, n):
  return r.iloc[:, :n]


@O.suite('C14.merge', P, ['sql.Datasources.merge', 'sql.Datasources.add',
                          'sql.Sql.merge', 'sql.is_compatible'], 150, 3000,
         what='after merging query parts into a WITH clause every part reads '
         'its own values through the alias returned')
def merge(ms, rng, i):
  sql = ms.sql
  _, df = table(rng)
  data = sql.Datasources()
  parts = []
  for _ in range(rng.randint(2, 6)):
    if parts and rng.random() < .2:
      q = copy.deepcopy(parts[0][0])
      for c in q.columns:
        c.alias_raw = c.alias_raw if rng.random() < .5 else 'r'
      q.columns = sql.Columns([copy.deepcopy(c) for c in q.columns])
    else:
      q = any_sql(sql, rng)
    alone = query(q, df, {})
    cols = list(q.columns)
    alias = rng.choice(['A', 'A', 'B', 'A_1'])
    if rng.random() < .75:
      got = data.merge(sql.Datasource(q, alias))
    else:
      got = data.add(sql.Datasource(q, alias))
    parts.append((q, alone, got, cols))
  case = {'with': str(data)}
  for q, alone, alias, cols in parts:
    if alone is None:
      continue
    names = [c.alias for c in q.groupby] + [c.alias for c in cols]
    text = 'WITH\n%s\nSELECT %s FROM %s' % (data, ', '.join(
        '%s AS c%d' % (n, k) for k, n in enumerate(names)), alias)
    r = query(text, df, case)
    if r is None:
      return None
    if rel(r) != rel(alone):
      raise O.Mismatch('part %s read through %s gives %s, expected %s' % (
          str(q).replace('\n', ' '), alias, rel(r)[:4], rel(alone)[:4]), case)
  return len(parts), len(data.children)


@O.suite('C14.nest', P, ['sql.Sql.__init__', 'sql.Datasources.extend',
                         'sql.Datasource.get_expression', 'sql.Join'], 120,
         2500, what='a query over queries with their own WITH clauses selects '
         'from exactly those queries')
def nest(ms, rng, i):
  sql = ms.sql
  _, df = table(rng)

  def inner(k):
    q = any_sql(sql, rng, grouped=('g',))
    q.columns = sql.Columns([sql.Column('x', rng.choice(
        ['SUM({})', 'MAX({})']), 'v%d' % k)])
    if rng.random() < .6:
      d = sql.Datasources()
      a = d.add(sql.Datasource(q, rng.choice(['A', 'B'])))
      q = sql.Sql(sql.Columns(['g', sql.Column('v%d' % k)]), a, with_data=d)
    return q
  q1, q2 = inner(1), inner(2)
  t1, t2 = query(q1, df, {}), query(q2, df, {})
  if t1 is None or t2 is None:
    return None
  kind = i % 3
  case = {'q1': str(q1), 'q2': str(q2)}
  d1 = dict(zip(t1['g'], t1['v1']))
  d2 = dict(zip(t2['g'], t2['v2']))
  if kind == 0:
    out = sql.Sql(sql.Columns(['g', sql.Column('v1 + 1', alias='v')]), q1,
                  where='v1 > 0')
    want = [(g, v + 1) for g, v in d1.items() if v is not None and v > 0]
  elif kind == 1:
    out = sql.Sql(None, q1, where='v1 > 0')
    if out.groupby:
      return None  # consolidated to a filter of the grouped query itself
    want = [(g, v) for g, v in d1.items() if v is not None and v > 0]
  else:
    data = sql.Datasources()
    al = []
    for n, q in enumerate((q1, q2)):
      w = q.with_data
      q.with_data = sql.Datasources()
      d = sql.Datasources(w)
      a = d.add(sql.Datasource(q, 'Q'))
      top = sql.Sql(None, a, with_data=d)
      del top
      before = list(data.children)
      data.extend(d)
      al.append(list(data.children)[-1] if len(data.children) > len(
          before) else None)
    if None in al:
      return None
    out = sql.Sql(sql.Columns(['g', 'v1', 'v2']), sql.Join(
        al[0], al[1], using='g', join='FULL'), with_data=data)
    want = [(g, d1.get(g), d2.get(g)) for g in set(d1) | set(d2)]
  case['sql'] = str(out)
  r = query(out, df, case)
  if r is None:
    return None
  import pandas as pd
  if rel(r) != rel(pd.DataFrame(want, columns=r.columns, dtype=object)):
    raise O.Mismatch('nested query gives %s, expected %s' % (
        rel(r), sorted(want, key=repr)), case)
  return kind, bool(q1.with_data)


@O.suite('C14.join', P, ['sql.Join', 'sql.Datasource.join'], 60, 1000,
         what='joins keep both sides, the type and the condition')
def join(ms, rng, i):
  sql = ms.sql
  kind = ['', 'INNER', 'LEFT', 'RIGHT', 'FULL', 'CROSS'][i % 6]
  a, b = sql.Datasource('T', 'l'), sql.Datasource(
      rng.choice(['T2', 'SELECT g, x FROM T2']), 'r')
  import pandas as pd
  l = pd.DataFrame({'g': rng.sample(['a', 'b', 'c', 'd'], 2), 'x': [1., 2.]})
  r = pd.DataFrame({'g': rng.sample(['a', 'b', 'c', 'd'], 3),
                    'x': [5., 6., 7.]})
  j = a.join(b, using=None if kind == 'CROSS' else 'g', join=kind)
  if kind == 'CROSS':
    q = sql.Sql([sql.Column('l.x', alias='p'), sql.Column('r.x', alias='q')], j)
    want = [(x, y) for x in l['x'] for y in r['x']]
  else:
    q = sql.Sql(['g', sql.Column('l.x', alias='p'), sql.Column(
        'r.x', alias='q')], j)
    m = l.merge(r, on='g', how={'': 'inner', 'FULL': 'outer'}.get(
        kind, kind.lower()))
    want = list(m.itertuples(index=False, name=None))
  try:
    got = run.run(q, {'T': l, 'T2': r})
  except parse.SqlUnsupported:
    return None
  except parse.SqlError as e:
    raise O.Mismatch('%s: %s' % (q, e), {})
  if rel(got) != rel(pd.DataFrame(want, columns=got.columns)):
    raise O.Mismatch('%s gives %s, expected %s' % (q, rel(got), want), {})
  return kind


# ------------------------------------------------- for all tables
def _subqueries():
  from props import C13, catalog as C, sqlcat as Q
  for n, e in C.CAT.items():
    if e.sql is True and not e.rand and not C13.out_of_reach(n) and (
        'jackknife' not in n):
      for by in Q.BY[:2]:
        if not set(by) & set(e.extra):
          if by or n != 'list':  # an empty sum is NULL
            C13.sql_obligation(P, 'subquery',
                               Q.Tree(n, e.build, e.cond, e.rows), by,
                               FNS + e.fns, table=C13.SUBQUERY)
          C13.sql_obligation(P, 'melted', Q.Tree(n, e.build, e.cond, e.rows),
                             by, FNS + e.fns, melted=True)


_subqueries()
