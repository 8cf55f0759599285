"""Concrete evaluator of the parsed queries (BigQuery semantics, strict)."""
import contextlib
import math
import random

from engine.sqlx import parse as P
from engine.sqlx.parse import SqlError, SqlUnsupported


class Rel(object):
  """cols: [(qualifier, name)]; vis: visible positions; rows: lists."""

  def __init__(self, cols, rows, vis=None):
    self.cols, self.rows = cols, rows
    self.vis = list(range(len(cols))) if vis is None else vis

  def find(self, q, n):
    if q is None:
      hit = [i for i in self.vis if self.cols[i][1] == n]
    else:
      hit = [i for i, c in enumerate(self.cols) if c == (q, n)]
    if len(hit) > 1:
      raise SqlError('ambiguous column %s' % (n if q is None else q + '.' + n))
    return hit[0] if hit else None

  def alias(self, a):
    if a is None:
      return self
    return Rel([(a, self.cols[i][1]) for i in self.vis],
               [[r[i] for i in self.vis] for r in self.rows])


def _num(v):
  if isinstance(v, bool):
    return v
  return v


def truth(v):
  if v is None or isinstance(v, bool):
    return v
  raise SqlError('condition is not a truth value: %r' % (v,))


def compare(o, a, b):
  if a is None or b is None:
    return None
  if isinstance(a, str) != isinstance(b, str):
    raise SqlError('comparison of %r and %r' % (a, b))
  return {'=': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b,
          '>=': a >= b}[o]


def skey(v):
  """Total order: NULL first."""
  return (0, 0) if v is None else (1, v)


def tostr(v):
  if v is None:
    return None
  if isinstance(v, bool):
    return 'true' if v else 'false'
  if isinstance(v, float) and v == int(v) and abs(v) < 1e15:
    return str(int(v))
  return str(v)


def check_num(*vs):
  for v in vs:
    if v is not None and (isinstance(v, (str, list, bool))):
      raise SqlError('arithmetic on %r' % (v,))


SCALARS = {'IF', 'COALESCE', 'POWER', 'POW', 'SQRT', 'LOG', 'LN', 'EXP', 'ABS',
           'CEILING', 'CEIL', 'FLOOR', 'ROUND', 'SAFE_DIVIDE', 'IFNULL',
           'NULLIF', 'RAND', 'CONCAT', 'GENERATE_ARRAY', 'FARM_FINGERPRINT',
           'MOD', 'GREATEST', 'LEAST', 'SIGN'}


HASHED = []


@contextlib.contextmanager
def hashes():
  """Records the arguments of all hash functions."""
  seen = []
  HASHED.append(seen)
  try:
    yield seen
  finally:
    HASHED.remove(seen)


def scalar_fn(fn, args, ctx):
  safe = fn.startswith('SAFE.')
  if safe:
    fn = fn[5:]
  if fn == 'RAND':
    return ctx.rng.random()
  if fn == 'CONCAT':
    return None if None in args else ''.join(tostr(a) for a in args)
  if fn == 'FARM_FINGERPRINT':
    import hashlib
    for h in HASHED:
      h.append(args[0])
    return None if args[0] is None else int.from_bytes(hashlib.sha256(
        tostr(args[0]).encode()).digest()[:8], 'big', signed=True)
  if fn == 'GENERATE_ARRAY':
    a, b = args[:2]
    return list(range(int(a), int(b) + 1))
  if fn == 'SAFE_DIVIDE':
    a, b = args
    check_num(a, b)
    return None if a is None or b is None or b == 0 else a / b
  if fn == 'NULLIF':
    return None if args[0] == args[1] else args[0]
  if any(a is None for a in args):
    return None
  check_num(*args)
  try:
    if fn in ('POWER', 'POW'):
      r = float(args[0])**args[1]
      if isinstance(r, complex):
        raise ValueError
      return r
    if fn == 'SQRT':
      return math.sqrt(args[0])
    if fn == 'LN' or (fn == 'LOG' and len(args) == 1):
      return math.log(args[0])
    if fn == 'LOG':
      return math.log(args[0], args[1])
    if fn == 'EXP':
      return math.exp(args[0])
  except (ValueError, ZeroDivisionError, OverflowError) as e:
    if safe:
      return None
    raise SqlError('%s%r: %s' % (fn, tuple(args), e))
  if fn == 'ABS':
    return abs(args[0])
  if fn in ('CEILING', 'CEIL'):
    return math.ceil(args[0])
  if fn == 'FLOOR':
    return math.floor(args[0])
  if fn == 'MOD':
    return math.fmod(args[0], args[1])
  if fn == 'SIGN':
    return (args[0] > 0) - (args[0] < 0)
  if fn == 'ROUND':
    return round(args[0], int(args[1]) if len(args) > 1 else 0)
  if fn == 'GREATEST':
    return max(args)
  if fn == 'LEAST':
    return min(args)
  raise SqlUnsupported('function ' + fn)


def mean(xs):
  return math.fsum(xs) / len(xs)


def covar(xs, ys, ddof):
  n = len(xs)
  if n - ddof <= 0:
    return None
  mx, my = mean(xs), mean(ys)
  return math.fsum((a - mx) * (b - my) for a, b in zip(xs, ys)) / (n - ddof)


def aggregate(fn, rows_args, opts, n):
  """fn over a list of argument tuples."""
  opts = dict(opts)
  if fn == 'COUNT':
    if rows_args and rows_args[0] == ('*',) or not n:
      return n
    vs = [a[0] for a in rows_args if a[0] is not None]
    return len(set(vs)) if opts.get('distinct') else len(vs)
  if fn == 'COUNTIF':
    return sum(1 for a in rows_args if truth(a[0]))
  if fn in ('COVAR_SAMP', 'COVAR_POP', 'CORR'):
    ps = [a for a in rows_args if a[0] is not None and a[1] is not None]
    for a in ps:
      check_num(*a)
    xs, ys = [a[0] for a in ps], [a[1] for a in ps]
    if fn == 'CORR':
      if len(ps) < 2:
        return None
      d = math.sqrt(covar(xs, xs, 0) * covar(ys, ys, 0))
      return covar(xs, ys, 0) / d if d else None
    return covar(xs, ys, 1 if fn == 'COVAR_SAMP' else 0)
  vs = [a[0] for a in rows_args if a[0] is not None]
  if opts.get('distinct'):
    vs = list(dict.fromkeys(vs))
  if fn == 'ANY_VALUE':
    return vs[0] if vs else None
  if fn in ('MAX', 'MIN'):
    return (max if fn == 'MAX' else min)(vs) if vs else None
  if fn == 'APPROX_QUANTILES':
    k = int(rows_args[0][1]) if rows_args else 1
    if not vs:
      return None
    vs = sorted(vs)
    return [vs[min(len(vs) - 1, int(round(i * (len(vs) - 1) / float(k))))]
            for i in range(k + 1)]
  check_num(*vs)
  if fn == 'SUM':
    return math.fsum(vs) if vs else None
  if fn == 'AVG':
    return mean(vs) if vs else None
  if fn in ('VAR_SAMP', 'VARIANCE'):
    return covar(vs, vs, 1)
  if fn == 'VAR_POP':
    return covar(vs, vs, 0)
  if fn in ('STDDEV_SAMP', 'STDDEV'):
    v = covar(vs, vs, 1)
    return None if v is None else math.sqrt(v)
  if fn == 'STDDEV_POP':
    v = covar(vs, vs, 0)
    return None if v is None else math.sqrt(v)
  raise SqlUnsupported('aggregate ' + fn)


class Ctx(object):

  def __init__(self, tables, rng):
    self.tables, self.rng = tables, rng
    self.used = set()


class Evaluator(object):

  def __init__(self, ctx):
    self.ctx = ctx

  # ------------------------------------------------------------- queries
  def query(self, q, env, outer=None):
    _, ctes, sel = q
    env = dict(env)
    names = set()
    for n, sub in ctes:
      if n in names:
        raise SqlError('duplicate WITH name ' + n)
      names.add(n)
      env[n] = self.query(sub, env)
    if sel[0] == 'paren':
      return self.query(sel[1], env, outer)
    return self.select(sel, env, outer)

  def source(self, f, env, outer):
    k = f[0]
    if k == 'table':
      n, a = f[1], f[2]
      if n in env:
        r = env[n]
      elif n in self.ctx.tables:
        r = self.ctx.tables[n]
      else:
        raise SqlError('unknown table ' + n)
      return r.alias(a or n.split('.')[-1])
    if k == 'sub':
      return self.query(f[1], env, outer).alias(f[2] or '')
    if k == 'unnest':
      scope = outer[0] if outer else Rel([], [[]])
      row = outer[1] if outer else []
      arr = self.ev(f[1], scope, row, env, outer)
      if arr is None:
        arr = []
      if not isinstance(arr, list):
        raise SqlError('UNNEST of %r' % (arr,))
      a = f[2] or ''
      return Rel([(a, a)], [[v] for v in arr])
    if k == 'join':
      return self.join(f, env, outer)
    raise SqlError('source %s' % k)

  def join(self, f, env, outer):
    _, kind, lf, rf, on, using = f
    left = self.source(lf, env, outer)
    if rf[0] == 'unnest' and P.has_col(rf[1]):
      if kind not in ('CROSS', 'INNER') or on is not None or using is not None:
        raise SqlUnsupported('correlated %s JOIN' % kind)
      rows = [r + b for r in left.rows
              for b in self.source(rf, env, (left, r)).rows]
      nl = len(left.cols)
      return Rel(left.cols + [(rf[2] or '', rf[2] or '')], rows,
                 left.vis + [nl])
    right = self.source(rf, env, outer)
    quals = {c[0] for c in left.cols} & {c[0] for c in right.cols}
    if quals - {''}:
      raise SqlError('duplicate table alias %s' % sorted(quals))
    cols = left.cols + right.cols
    nl = len(left.cols)
    vis = left.vis + [nl + i for i in right.vis]
    plain = Rel(cols, [], vis)
    if kind != 'CROSS' and on is None and using is None and rf[0] != 'unnest':
      raise SqlError('%s JOIN without a condition' % kind)
    if kind == 'CROSS' and (on is not None or using is not None):
      raise SqlError('CROSS JOIN with a condition')
    pairs = []
    if using is not None:
      for u in using:
        i, j = left.find(None, u), right.find(None, u)
        if i is None or j is None:
          raise SqlError('USING column %s is not in both tables' % u)
        pairs.append((i, j))
    out = []
    seen_r = [False] * len(right.rows)
    for a in left.rows:
      hit = False
      for jr, b in enumerate(right.rows):
        if using is not None:
          ok = all(a[i] is not None and compare('=', a[i], b[j])
                   for i, j in pairs)
        elif on is not None:
          ok = truth(self.ev(on, plain, a + b, env, outer)) is True
        else:
          ok = True
        if ok:
          hit = True
          seen_r[jr] = True
          out.append((a, b))
      if not hit and kind in ('LEFT', 'FULL'):
        out.append((a, None))
    if kind in ('RIGHT', 'FULL'):
      for b, s in zip(right.rows, seen_r):
        if not s:
          out.append((None, b))
    rows = []
    na, nb = [None] * nl, [None] * len(right.cols)
    for a, b in out:
      r = list(a if a is not None else na) + list(b if b is not None else nb)
      if using is not None:
        for i, j in pairs:
          r.append(r[i] if r[i] is not None else r[nl + j])
      rows.append(r)
    if using is not None:
      drop = {i for i, _ in pairs} | {nl + j for _, j in pairs}
      n = len(cols)
      vis = [n + k for k in range(len(pairs))] + [v for v in vis
                                                  if v not in drop]
      cols = cols + [(None, u) for u in using]
    return Rel(cols, rows, vis)

  def select(self, sel, env, outer):
    _, distinct, items, frm, where, group, having, order, limit = sel
    rel = self.source(frm, env, outer) if frm is not None else Rel([], [[]])
    if where is not None:
      if P.has_agg(where) or P.has_win(where):
        raise SqlError('aggregate in WHERE')
      rel = Rel(rel.cols, [r for r in rel.rows if truth(self.ev(
          where, rel, r, env, outer)) is True], rel.vis)
    # expand stars
    out = []
    for it in items:
      if it[0] == 'star':
        hit = 0
        names = {n for _, n in rel.cols}
        for x in it[2]:
          if x not in names:
            raise SqlError('EXCEPT of unknown column ' + x)
        idx = rel.vis if it[1] is None else [
            i for i, c in enumerate(rel.cols) if c[0] == it[1]]
        if not idx:
          raise SqlError('%s.* of unknown table' % it[1])
        for i in idx:
          if rel.cols[i][1] not in it[2]:
            out.append((('pos', i), rel.cols[i][1]))
      else:
        e, a = it[1], it[2]
        if a is None:
          a = e[2] if e[0] == 'col' else None
        out.append((e, a))
    for i, (e, a) in enumerate(out):
      if a is None:
        out[i] = (e, 'f%d_' % i)
    names = [a for _, a in out]
    dup = {a for a in names if names.count(a) > 1}
    if dup:
      raise SqlError('duplicate output column %s' % sorted(dup))
    grouped = group is not None or any(P.has_agg(e) for e, _ in out) or (
        having is not None)
    if grouped:
      rows = self.grouped(rel, out, group, having, env, outer)
    else:
      wins = {}
      for e, _ in out:
        self.windows(e, rel, env, outer, wins)
      rows = [[self.ev(e, rel, r, env, outer, wins, n) for e, _ in out]
              for n, r in enumerate(rel.rows)]
    if distinct:
      rows = [list(r) for r in dict.fromkeys(map(tuple, rows))]
    res = Rel([('', a) for a in names], rows)
    if order is not None:
      for e, d in reversed(order):
        if e[0] == 'num':
          i = int(e[1]) - 1
          res.rows.sort(key=lambda r: skey(r[i]), reverse=d)
        else:
          res.rows.sort(key=lambda r: skey(self.ev(e, res, r, env, outer)),
                        reverse=d)
    if limit is not None:
      res.rows = res.rows[:int(self.ev(limit, Rel([], []), [], env, outer))]
    return res

  def grouped(self, rel, out, group, having, env, outer):
    keys = []
    alias = {a: e for e, a in out}
    for e in group or []:
      if e[0] == 'num':
        e = out[int(e[1]) - 1][0]
      elif e[0] == 'col' and e[1] is None and e[2] in alias and (
          alias[e[2]] != e):
        e = alias[e[2]]
        if P.has_agg(e):
          raise SqlError('GROUP BY an aggregate')
      if P.has_agg(e):
        raise SqlError('GROUP BY an aggregate')
      keys.append(self.canon(e, rel, outer))
    groups = {}
    for r in rel.rows:
      k = tuple(self.ev(e, rel, r, env, outer) for e in keys)
      groups.setdefault(k, []).append(r)
    if not group and not groups:
      groups[()] = []
    if any(P.has_win(e) for e, _ in out):
      raise SqlUnsupported('window over an aggregation')
    rows = []
    for k, rs in groups.items():
      kv = dict(zip(keys, k))
      if having is not None and truth(self.evg(
          having, rel, rs, kv, env, outer)) is not True:
        continue
      rows.append([self.evg(e, rel, rs, kv, env, outer) for e, _ in out])
    if not groups:
      # names still have to resolve
      for e, _ in out:
        self.evg(e, rel, [], {k: None for k in keys}, env, outer)
    return rows

  def canon(self, e, rel, outer):
    """Columns by position, so that equal references are equal."""
    if not isinstance(e, tuple) or not e:
      return e
    if e[0] == 'col':
      i = rel.find(e[1], e[2])
      if i is None:
        return e
      return ('pos', i)
    if e[0] in ('scalar', 'query'):
      return e
    return tuple(self.canon(x, rel, outer) for x in e)

  def evg(self, e, rel, rs, kv, env, outer):
    """Expression of a grouped query."""
    c = self.canon(e, rel, outer)
    if c in kv:
      return kv[c]
    k = e[0]
    if k == 'call' and e[1] in P.AGGS:
      return self.agg(e, rel, rs, env, outer)
    if k in ('col', 'pos'):
      if k == 'col' and rel.find(e[1], e[2]) is None:
        if outer and outer[0].find(e[1], e[2]) is not None:
          return outer[1][outer[0].find(e[1], e[2])]
        raise SqlError('unknown column %s%s' % (
            e[1] + '.' if e[1] else '', e[2]))
      raise SqlError('column %s is neither grouped nor aggregated' % (e[-1],))
    if k == 'scalar':
      # may use grouped columns only through the outer scope
      row = [None] * len(rel.cols)
      for kk, v in kv.items():
        if kk[0] == 'pos':
          row[kk[1]] = v
      return self.scalar_query(e[1], env, (rel, row))
    return self.apply(e, lambda x: self.evg(x, rel, rs, kv, env, outer))

  def agg(self, e, rel, rs, env, outer):
    _, fn, args, opts = e
    o = dict(opts)
    for a in args:
      if P.has_agg(a):
        raise SqlError('nested aggregate')
      if P.has_win(a):
        raise SqlError('window inside an aggregate')
    if args == (('star',),):
      if fn != 'COUNT':
        raise SqlError('%s(*)' % fn)
      return len(rs)
    for a in args:
      self.resolve(a, rel, env, outer)
    rows = rs
    if fn == 'ARRAY_AGG':
      vals = [(self.ev(args[0], rel, r, env, outer), r) for r in rows]
      if o.get('ignore_nulls'):
        vals = [v for v in vals if v[0] is not None]
      if o.get('distinct'):
        vals = [(v, None) for v in dict.fromkeys(v[0] for v in vals)]
      for ex, d in reversed(o.get('order') or ()):
        vals.sort(key=lambda v: skey(self.ev(ex, rel, v[1], env, outer)),
                  reverse=d)
      vals = [v[0] for v in vals]
      if 'limit' in o:
        vals = vals[:int(self.ev(o['limit'], Rel([], []), [], env, outer))]
      return vals or None
    at = [tuple(self.ev(a, rel, r, env, outer) for a in args) for r in rows]
    return aggregate(fn, at, opts, len(rows))

  def resolve(self, e, rel, env, outer):
    """Raises for column references that do not resolve."""
    if not isinstance(e, tuple) or not e:
      return
    if e[0] == 'col':
      if rel.find(e[1], e[2]) is None and not (
          outer and outer[0].find(e[1], e[2]) is not None):
        raise SqlError('unknown column %s' % (e[2],))
      return
    if e[0] in ('scalar', 'query'):
      return
    for x in e:
      self.resolve(x, rel, env, outer)

  # ------------------------------------------------------------- windows
  def windows(self, e, rel, env, outer, wins):
    if not isinstance(e, tuple) or not e:
      return
    if e[0] in ('scalar', 'query'):
      return
    if e[0] == 'win':
      if e not in wins:
        wins[e] = self.window(e, rel, env, outer)
      return
    for x in e:
      self.windows(x, rel, env, outer, wins)

  def window(self, e, rel, env, outer):
    _, call, part, order, frame = e
    _, fn, args, opts = call
    for a in args:
      if P.has_agg(a) or P.has_win(a):
        raise SqlUnsupported('nested window')
    for a in args + part + tuple(o for o, _ in order or ()):
      if a != ('star',):
        self.resolve(a, rel, env, outer)
    n = len(rel.rows)
    res = [None] * n
    parts = {}
    for i, r in enumerate(rel.rows):
      k = tuple(self.ev(p, rel, r, env, outer) for p in part)
      parts.setdefault(k, []).append(i)
    for idx in parts.values():
      keys = {}
      if order:
        for i in idx:
          keys[i] = [skey(self.ev(o, rel, rel.rows[i], env, outer))
                     for o, _ in order]
        for j, (_, d) in reversed(list(enumerate(order))):
          idx.sort(key=lambda i: keys[i][j], reverse=d)
      if fn in ('LAG', 'LEAD'):
        off = int(self.ev(args[1], Rel([], []), [], env, outer)) if len(
            args) > 1 else 1
        vals = [self.ev(args[0], rel, rel.rows[i], env, outer) for i in idx]
        dflt = self.ev(args[2], Rel([], []), [], env, outer) if len(
            args) > 2 else None
        for p, i in enumerate(idx):
          q = p - off if fn == 'LAG' else p + off
          res[i] = vals[q] if 0 <= q < len(vals) else dflt
        if not order:
          raise SqlError('%s needs ORDER BY' % fn)
        continue
      if fn == 'ROW_NUMBER':
        for p, i in enumerate(idx):
          res[i] = p + 1
        continue
      if fn not in P.AGGS:
        raise SqlUnsupported('window function ' + fn)
      if args == (('star',),):
        at = [('*',)] * len(idx)
      else:
        at = [tuple(self.ev(a, rel, rel.rows[i], env, outer) for a in args)
              for i in idx]
      for p, i in enumerate(idx):
        lo, hi = 0, len(idx)
        if frame:
          lo = p if frame[0] == 'CUR' else 0
          hi = p + 1 if frame[1] == 'CUR' else len(idx)
        elif order:
          hi = p + 1
          while hi < len(idx) and keys[idx[hi]] == keys[i]:
            hi += 1
        sub = at[lo:hi]
        res[i] = aggregate(fn, sub, opts, len(sub))
    return res

  # ------------------------------------------------------------- expressions
  def scalar_query(self, q, env, outer):
    r = self.query(q, env, outer)
    if len(r.cols) != 1:
      raise SqlError('scalar subquery with %d columns' % len(r.cols))
    if len(r.rows) > 1:
      raise SqlError('scalar subquery with %d rows' % len(r.rows))
    return r.rows[0][0] if r.rows else None

  def ev(self, e, rel, row, env, outer, wins=None, n=None):
    k = e[0]
    if k == 'pos':
      return row[e[1]]
    if k == 'col':
      i = rel.find(e[1], e[2])
      if i is not None:
        return row[i]
      if outer:
        j = outer[0].find(e[1], e[2])
        if j is not None:
          return outer[1][j]
      raise SqlError('unknown column %s%s' % (e[1] + '.' if e[1] else '', e[2]))
    if k == 'win':
      if wins is None:
        raise SqlError('window function not allowed here')
      return wins[e][n]
    if k == 'scalar':
      return self.scalar_query(e[1], env, (rel, row))
    if k == 'call' and e[1] in P.AGGS:
      raise SqlError('aggregate %s not allowed here' % e[1])
    return self.apply(e, lambda x: self.ev(x, rel, row, env, outer, wins, n))

  def apply(self, e, ev):
    k = e[0]
    if k == 'num':
      if e[1][:2] in ('0x', '0X'):
        return int(e[1], 16)
      return float(e[1]) if any(c in e[1] for c in '.eE') else int(e[1])
    if k == 'str':
      return e[1]
    if k == 'bool':
      return e[1]
    if k == 'null':
      return None
    if k == 'neg':
      v = ev(e[1])
      check_num(v)
      return None if v is None else -v
    if k == 'not':
      v = truth(ev(e[1]))
      return None if v is None else not v
    if k == 'and':
      a, b = truth(ev(e[1])), truth(ev(e[2]))
      if a is False or b is False:
        return False
      return None if a is None or b is None else True
    if k == 'or':
      a, b = truth(ev(e[1])), truth(ev(e[2]))
      if a is True or b is True:
        return True
      return None if a is None or b is None else False
    if k == 'cmp':
      return compare(e[1], ev(e[2]), ev(e[3]))
    if k == 'isnull':
      return ev(e[1]) is None
    if k == 'is':
      return truth(ev(e[1])) is e[2]
    if k == 'bin':
      a, b = ev(e[2]), ev(e[3])
      check_num(a, b)
      if a is None or b is None:
        return None
      if e[1] == '+':
        return a + b
      if e[1] == '-':
        return a - b
      if e[1] == '*':
        return a * b
      if b == 0:
        raise SqlError('division by zero: %s' % (e,))
      return a / b
    if k == 'cast':
      v = ev(e[1])
      if e[2] == 'STRING':
        return tostr(v)
      if e[2] in ('FLOAT64', 'NUMERIC'):
        return None if v is None else float(v)
      if e[2] in ('INT64',):
        return None if v is None else int(round(float(v)))
      raise SqlUnsupported('CAST AS ' + e[2])
    if k == 'sub':
      arr, i = ev(e[2]), ev(e[3])
      if arr is None or i is None:
        return None
      if not isinstance(arr, list):
        raise SqlError('subscript of %r' % (arr,))
      i = int(i) - (1 if 'ORDINAL' in e[1] else 0)
      if 0 <= i < len(arr):
        return arr[i]
      if e[1].startswith('SAFE'):
        return None
      raise SqlError('array index %d out of bounds' % i)
    if k == 'call':
      fn, args = e[1], e[2]
      if fn == 'IF':
        if len(args) != 3:
          raise SqlError('IF takes three arguments')
        c = truth(ev(args[0]))
        return ev(args[1]) if c is True else ev(args[2])
      if fn in ('COALESCE', 'IFNULL'):
        for a in args:
          v = ev(a)
          if v is not None:
            return v
        return None
      if fn.replace('SAFE.', '') not in SCALARS:
        raise SqlUnsupported('function ' + fn)
      return scalar_fn(fn, [ev(a) for a in args], self.ctx)
    raise SqlUnsupported('expression ' + str(k))


def from_df(df):
  """pandas table -> relation."""
  import numpy as np
  cols = [('', str(c)) for c in df.columns]
  rows = []
  for t in df.itertuples(index=False, name=None):
    r = []
    for v in t:
      if isinstance(v, np.generic):
        v = v.item()
      if isinstance(v, float) and math.isnan(v):
        v = None
      r.append(v)
    rows.append(r)
  return Rel(cols, rows)


def to_df(rel):
  import numpy as np
  import pandas as pd
  d = {}
  cols = [rel.cols[i][1] for i in rel.vis]
  for i in rel.vis:
    vs = [r[i] for r in rel.rows]
    if all(v is None or (isinstance(v, (int, float)) and not isinstance(
        v, bool)) for v in vs):
      if vs and all(isinstance(v, int) for v in vs):
        d[i] = pd.Series(vs, dtype='int64')
      else:
        d[i] = pd.Series([np.nan if v is None else float(v) for v in vs],
                         dtype=float)
    else:
      d[i] = pd.Series(vs, dtype=object)
  df = pd.DataFrame(d)
  df.columns = cols
  return df


def run(sql, tables, seed=0):
  """Executes the query text on {name: DataFrame}; returns a DataFrame."""
  ast = P.parse(str(sql))
  ctx = Ctx({k: from_df(v) for k, v in tables.items()}, random.Random(seed))
  return to_df(Evaluator(ctx).query(ast, {}))


def executor(df, seed=0, log=None):
  """execute= argument for compute_on_sql."""
  n = [seed]

  def execute(sql):
    if log is not None:
      log.append(str(sql))
    n[0] += 1
    return run(sql, {'T': df}, n[0])
  return execute
