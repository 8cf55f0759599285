"""Symbolic evaluator of the parsed queries: the denotation of a query.

A relation is a finite union of blocks { cells | variables : condition } over
an unbounded number of rows, as in engine/facade/sympd.py; a query maps blocks
to blocks.  NULL is the cell's missing condition, truth values are three-valued.
What is not covered raises Unsupported.  Divisors are taken to be non-zero
where they occur, except that 0 / 0 is NULL (as in the contracts of pandas).
Column resolution and scoping follow engine/sqlx/run.py, the strict evaluator.
"""
from engine import terms as T
from engine.facade import sympd
from engine.facade.sympd import Block, Cell, Unsupported
from engine.sqlx import parse as P
from engine.sqlx.parse import SqlError, SqlUnsupported

NULL = Cell(T.TRUE, T.ZERO)


class Rel(object):

  def __init__(self, cols, blocks, vis=None):
    self.cols, self.blocks = cols, blocks
    self.vis = list(range(len(cols))) if vis is None else vis

  def find(self, q, n):
    if q is None:
      hit = [i for i in self.vis if self.cols[i][1] == n]
    else:
      hit = [i for i, c in enumerate(self.cols) if c == (q, n)]
    if len(hit) > 1:
      raise SqlError('ambiguous column %s' % (n if q is None else q + '.' + n))
    return hit[0] if hit else None

  def alias(self, a):
    if a is None:
      return self
    bl = []
    for b in self.blocks:
      bl.append(Block(b.vars, b.cond, [], [b.cells[i] for i in self.vis],
                      b.mult))
    return Rel([(a, self.cols[i][1]) for i in self.vis], bl)


def truth(c):
  if c.null is not T.TRUE and c.val.sort != 'B':
    raise SqlError('condition is not a truth value')
  return c


def holds(c):
  c = truth(c)
  return T.FALSE if c.null is T.TRUE else T.and_(T.neg(c.null), c.val)


def bcell(null, val):
  return Cell(null, val if val.sort == 'B' else T.FALSE)


def compare(o, a, b):
  null = T.or_(a.null, b.null)
  if null is T.TRUE:
    return Cell(T.TRUE, T.FALSE)
  x, y = a.val, b.val
  if x.sort != y.sort:
    raise SqlError('comparison of %s and %s' % (x, y))
  v = {'=': lambda: T.eq(x, y), '!=': lambda: T.neg(T.eq(x, y)),
       '<': lambda: T.lt(x, y), '<=': lambda: T.le(x, y),
       '>': lambda: T.lt(y, x), '>=': lambda: T.le(y, x)}[o]()
  return Cell(null, v)


def ite(c, a, b):
  if a.null is T.TRUE and b.null is not T.TRUE:
    return Cell(T.or_(c, b.null), b.val)
  if b.null is T.TRUE and a.null is not T.TRUE:
    return Cell(T.or_(T.neg(c), a.null), a.val)
  if a.val.sort != b.val.sort:
    if a.null is T.TRUE and b.null is T.TRUE:
      return NULL
    raise SqlError('IF of different types')
  return sympd.ite_cell(c, a, b)


def key_of(c):
  if c.null is not T.FALSE:
    raise Unsupported('grouping by a column that may be NULL')
  return c.val


def nonnull(items):
  return T.or_(*[T.exists(b.vars, T.and_(b.cond, T.neg(c.null)))
                 for b, c in items])


def pairs(items):
  """[(block, cell, cell)] -> rows with both present."""
  return [(b.vars, T.and_(b.cond, T.neg(c.null), T.neg(d.null)), c.val, d.val,
           b.mult) for b, c, d in items]


def covar(items, ddof):
  p = pairs(items)
  s = lambda f: sympd._sum_of([(v, c, f(x, y), m) for v, c, x, y, m in p],
                              lambda z: z)
  n = s(lambda x, y: T.ONE)
  mx, my = T.div(s(lambda x, y: x), n), T.div(s(lambda x, y: y), n)
  sxy = s(lambda x, y: T.mul(T.minus(x, mx), T.minus(y, my)))
  d = T.num(ddof)
  return Cell(T.le(n, d), T.div(sxy, T.minus(n, d)))


def aggregate(fn, items, opts):
  """items: [(block, [cells])]."""
  opts = dict(opts)
  one = [(b, a[0]) for b, a in items] if all(a for _, a in items) else []
  if set(opts) - {'distinct'}:
    raise Unsupported('options of ' + fn)
  if opts.get('distinct') and fn != 'COUNT':
    raise Unsupported('DISTINCT in ' + fn)
  if fn in ('COVAR_SAMP', 'COVAR_POP', 'CORR'):
    it = [(b, a[0], a[1]) for b, a in items]
    if fn == 'CORR':
      if len(it) != 1:
        raise Unsupported('CORR over several blocks')
      b, c, d = it[0]
      return sympd.agg_corr([(b.vars, b.cond, [], [c], [d], b.mult)], 'pearson')
    return covar(it, 1 if fn == 'COVAR_SAMP' else 0)
  if fn != 'COUNT' and any(c.null is not T.TRUE and c.val.sort == 'K'
                           for _, c in one) and fn not in ('MAX', 'MIN'):
    raise SqlError('%s of labels' % fn)
  if fn == 'COUNT':
    if opts.get('distinct'):
      return sympd.agg_nunique([(b, c) for b, c in one
                                if c.null is not T.TRUE])
    return sympd.agg_count(one)
  if fn == 'SUM':
    return Cell(T.neg(nonnull(one)), sympd.agg_sum(one).val)
  if fn == 'AVG':
    return sympd.agg_mean(one)
  if fn in ('MAX', 'MIN'):
    return sympd.agg_ext(one, fn.lower())
  if fn in ('VAR_SAMP', 'VARIANCE'):
    return sympd.agg_var(one, 1)
  if fn == 'VAR_POP':
    return sympd.agg_var(one, 0)
  if fn in ('STDDEV_SAMP', 'STDDEV', 'STDDEV_POP'):
    v = sympd.agg_var(one, 0 if fn == 'STDDEV_POP' else 1)
    return Cell(v.null, T.sqrt(v.val))
  if fn == 'COUNTIF':
    return Cell(T.FALSE, sympd._sum_of(
        [(b.vars, T.and_(b.cond, holds(c)), T.ONE, b.mult) for b, c in one],
        lambda x: x))
  raise Unsupported('aggregate ' + fn)


class Evaluator(object):

  def __init__(self, tables):
    self.tables = tables

  # ------------------------------------------------------------- queries
  def query(self, q, env, outer=None):
    _, ctes, sel = q
    env = dict(env)
    names = set()
    for n, sub in ctes:
      if n in names:
        raise SqlError('duplicate WITH name ' + n)
      names.add(n)
      env[n] = self.query(sub, env)
    if sel[0] == 'paren':
      return self.query(sel[1], env, outer)
    return self.select(sel, env, outer)

  def source(self, f, env, outer):
    k = f[0]
    if k == 'table':
      n, a = f[1], f[2]
      r = env[n] if n in env else self.tables.get(n)
      if r is None:
        raise SqlError('unknown table ' + n)
      return r.alias(a or n.split('.')[-1])
    if k == 'sub':
      return self.query(f[1], env, outer).alias(f[2] or '')
    if k == 'join':
      return self.join(f, env, outer)
    raise Unsupported('source %s' % k)

  def join(self, f, env, outer):
    _, kind, lf, rf, on, using = f
    left = self.source(lf, env, outer)
    right = self.source(rf, env, outer)
    quals = {c[0] for c in left.cols} & {c[0] for c in right.cols}
    if quals - {''}:
      raise SqlError('duplicate table alias %s' % sorted(quals))
    cols = left.cols + right.cols
    nl = len(left.cols)
    vis = left.vis + [nl + i for i in right.vis]
    plain = Rel(cols, [], vis)
    if kind != 'CROSS' and on is None and using is None:
      raise SqlError('%s JOIN without a condition' % kind)
    if kind == 'CROSS' and (on is not None or using is not None):
      raise SqlError('CROSS JOIN with a condition')
    if kind == 'RIGHT':
      r = self.join(('join', 'LEFT', rf, lf, on, using), env, outer)
      nr = len(right.cols)
      order = list(range(nr, nr + nl)) + list(range(nr)) + list(
          range(nr + nl, len(r.cols)))
      back = {o: i for i, o in enumerate(order)}
      return Rel([r.cols[o] for o in order], [
          Block(b.vars, b.cond, [], [b.cells[o] for o in order], b.mult)
          for b in r.blocks], [back[v] for v in r.vis])
    prs = []
    if using is not None:
      for u in using:
        i, j = left.find(None, u), right.find(None, u)
        if i is None or j is None:
          raise SqlError('USING column %s is not in both tables' % u)
        prs.append((i, j))

    def cond(lc, rc):
      row = list(lc) + list(rc)
      if using is not None:
        return T.and_(*[holds(compare('=', lc[i], rc[j])) for i, j in prs])
      if on is not None:
        return holds(self.ev(on, plain, row, env, outer))
      return T.TRUE

    out = []
    for p in left.blocks:
      hit = []
      det = []
      for q0 in right.blocks:
        q = q0.fresh()
        c = cond(p.cells, q.cells)
        if c is T.FALSE:
          continue
        # determine the variables of q from the condition
        m = {}
        for x in T.conjuncts(c):
          x = T.subst(x, m)
          if x.op == 'eq':
            for s, t in ((x.args[0], x.args[1]), (x.args[1], x.args[0])):
              if s.op == 'var' and s in q.vars and s not in m and (
                  s not in t.fv):
                m = {k: T.subst(v, {s: t}) for k, v in m.items()}
                m[s] = t
                break
        qq = q.subst(m)
        rest = [v for v in q.vars if v not in m]
        cc = T.subst(c, m)
        hit.append((q0, qq, rest, cc))
      if kind in ('INNER', 'CROSS'):
        for q0, qq, rest, cc in hit:
          b = Block(tuple(p.vars) + tuple(rest), T.and_(
              p.cond, qq.cond, cc), [], p.cells + qq.cells,
                    T.mul(p.mult, qq.mult))
          out.append(b.eliminate())
        continue
      if all(not r and q.mult is T.ONE for _, q, r, _ in hit) and (
          kind == 'LEFT') and len(hit) <= 1:
        cells = [NULL] * len(right.cols)
        for _, qq, _, cc in hit:
          no = T.neg(T.and_(qq.cond, cc))
          cells = [Cell(T.or_(no, c.null), c.val) for c in qq.cells]
        out.append(Block(p.vars, p.cond, [], p.cells + cells, p.mult))
        continue
      none = []
      for q0, qq, rest, cc in hit:
        b = Block(tuple(p.vars) + tuple(rest), T.and_(p.cond, qq.cond, cc), [],
                  p.cells + qq.cells, T.mul(p.mult, qq.mult))
        out.append(b.eliminate())
        none.append(T.neg(T.exists(rest, T.and_(qq.cond, cc))))
      out.append(Block(p.vars, T.and_(p.cond, *none), [],
                       p.cells + [NULL] * len(right.cols), p.mult))
    if kind == 'FULL':
      for q in right.blocks:
        none = []
        for p0 in left.blocks:
          p = p0.fresh()
          none.append(T.neg(T.exists(p.vars, T.and_(
              p.cond, cond(p.cells, q.cells)))))
        out.append(Block(q.vars, T.and_(q.cond, *none), [],
                         [NULL] * nl + q.cells, q.mult))
    if using is not None:
      for b in out:
        for i, j in prs:
          b.cells.append(b.cells[i] if b.cells[i].null is T.FALSE else ite(
              T.neg(b.cells[i].null), b.cells[i], b.cells[nl + j]))
      drop = {i for i, _ in prs} | {nl + j for _, j in prs}
      n = len(cols)
      vis = [n + k for k in range(len(prs))] + [v for v in vis if v not in drop]
      cols = cols + [(None, u) for u in using]
    return Rel(cols, [b for b in out if b.cond is not T.FALSE], vis)

  def select(self, sel, env, outer):
    _, distinct, items, frm, where, group, having, order, limit = sel
    if limit is not None:
      raise Unsupported('LIMIT')
    rel = self.source(frm, env, outer) if frm is not None else Rel(
        [], [Block((), T.TRUE, [], [])])
    if where is not None:
      if P.has_agg(where) or P.has_win(where):
        raise SqlError('aggregate in WHERE')
      bl = []
      for b in rel.blocks:
        nb = b.restrict(holds(self.ev(where, rel, b.cells, env, outer)))
        if nb.cond is not T.FALSE:
          bl.append(nb)
      rel = Rel(rel.cols, bl, rel.vis)
    out = []
    for it in items:
      if it[0] == 'star':
        names = {n for _, n in rel.cols}
        for x in it[2]:
          if x not in names:
            raise SqlError('EXCEPT of unknown column ' + x)
        idx = rel.vis if it[1] is None else [
            i for i, c in enumerate(rel.cols) if c[0] == it[1]]
        if not idx:
          raise SqlError('%s.* of unknown table' % it[1])
        for i in idx:
          if rel.cols[i][1] not in it[2]:
            out.append((('pos', i), rel.cols[i][1]))
      else:
        e, a = it[1], it[2]
        if a is None:
          a = e[2] if e[0] == 'col' else None
        out.append((e, a))
    out = [(e, 'f%d_' % i if a is None else a) for i, (e, a) in enumerate(out)]
    names = [a for _, a in out]
    dup = {a for a in names if names.count(a) > 1}
    if dup:
      raise SqlError('duplicate output column %s' % sorted(dup))
    grouped = group is not None or any(P.has_agg(e) for e, _ in out) or (
        having is not None)
    if grouped:
      if having is not None:
        raise Unsupported('HAVING')
      bl = self.grouped(rel, out, group, env, outer)
    else:
      bl = [Block(b.vars, b.cond, [], [
          self.ev(e, rel, b.cells, env, outer, win=(rel, b)) for e, _ in out],
                  b.mult) for b in rel.blocks]
    res = Rel([('', a) for a in names], bl)
    if distinct:
      gb = sympd._group_blocks(res.blocks, [
          lambda b, i=i: key_of(b.cells[i]) for i in range(len(names))])
      res = Rel(res.cols, [Block(b.vars, b.cond, [], [
          Cell(T.FALSE, k) for k in b.idx]) for b in gb])
    return res

  def grouped(self, rel, out, group, env, outer):
    keys = []
    alias = {a: e for e, a in out}
    for e in group or []:
      if e[0] == 'num':
        e = out[int(e[1]) - 1][0]
      elif e[0] == 'col' and e[1] is None and e[2] in alias and (
          alias[e[2]] != e):
        e = alias[e[2]]
      if P.has_agg(e):
        raise SqlError('GROUP BY an aggregate')
      keys.append(self.canon(e, rel))
    if any(P.has_win(e) for e, _ in out):
      raise Unsupported('window over an aggregation')
    kf = [lambda b, e=e: key_of(self.ev(e, rel, b.cells, env, outer))
          for e in keys]
    if keys:
      gb = sympd._group_blocks(rel.blocks, kf)
    else:
      gb = [Block((), T.TRUE, [], [])]
    res = []
    for g in gb:
      kv = {e: Cell(T.FALSE, k) for e, k in zip(keys, g.idx)}

      def members(g=g):
        ms = []
        for b in rel.blocks:
          b = b.fresh()
          c = T.and_(b.cond, *[T.eq(f(b), k) for f, k in zip(kf, g.idx)])
          if c is not T.FALSE:
            ms.append(Block(b.vars, c, [], b.cells, b.mult))
        return ms
      cells = [self.evg(e, rel, members, kv, env, outer) for e, _ in out]
      res.append(Block(g.vars, g.cond, [], cells))
    return res

  def canon(self, e, rel):
    if not isinstance(e, tuple) or not e:
      return e
    if e[0] == 'col':
      i = rel.find(e[1], e[2])
      return e if i is None else ('pos', i)
    if e[0] in ('scalar', 'query'):
      return e
    return tuple(self.canon(x, rel) for x in e)

  def evg(self, e, rel, members, kv, env, outer):
    c = self.canon(e, rel)
    if c in kv:
      return kv[c]
    k = e[0]
    if k == 'call' and e[1] in P.AGGS:
      _, fn, args, opts = e
      for a in args:
        if P.has_agg(a):
          raise SqlError('nested aggregate')
        if P.has_win(a):
          raise SqlError('window inside an aggregate')
      if args == (('star',),):
        if fn != 'COUNT':
          raise SqlError('%s(*)' % fn)
        return sympd.agg_count([(b, Cell(T.FALSE, T.ONE)) for b in members()])
      items = [(b, [self.ev(a, rel, b.cells, env, outer) for a in args])
               for b in members()]
      return aggregate(fn, items, opts or ())
    if k in ('col', 'pos'):
      if k == 'col' and rel.find(e[1], e[2]) is None:
        return self.outer_col(e, outer)
      raise SqlError('column %s is neither grouped nor aggregated' % (e[-1],))
    if k == 'scalar':
      row = [NULL] * len(rel.cols)
      for kk, v in kv.items():
        if kk[0] == 'pos':
          row[kk[1]] = v
      return self.scalar_query(e[1], env, (rel, row))
    return self.apply(e, lambda x: self.evg(x, rel, members, kv, env, outer))

  def outer_col(self, e, outer):
    if outer:
      j = outer[0].find(e[1], e[2])
      if j is not None:
        return outer[1][j]
    raise SqlError('unknown column %s%s' % (e[1] + '.' if e[1] else '', e[2]))

  def window(self, e, rel, b, env, outer):
    """The value of a window function in the row of block b."""
    _, call, part, order, frame = e
    _, fn, args, opts = call
    for a in args:
      if P.has_agg(a) or P.has_win(a):
        raise Unsupported('nested window')
    if fn not in P.AGGS:
      raise Unsupported('window function ' + fn)
    if frame and frame != ('UP', 'CUR'):
      if frame != ('UP', 'UF'):
        raise Unsupported('window frame')
      order = None
    own = [self.ev(x, rel, b.cells, env, outer) for x in part]
    oo = [self.ev(x, rel, b.cells, env, outer) for x, _ in order or ()]
    items = []
    for q in rel.blocks:
      q = q.fresh()
      c = q.cond
      for x, k in zip(part, own):
        c = T.and_(c, T.eq(key_of(self.ev(x, rel, q.cells, env, outer)),
                           key_of(k)))
      if order:
        le = T.TRUE
        for (x, desc), k in reversed(list(zip(order, oo))):
          a, z = key_of(self.ev(x, rel, q.cells, env, outer)), key_of(k)
          s = T.lt(z, a) if desc else T.lt(a, z)
          le = T.or_(s, T.and_(T.eq(a, z), le))
        c = T.and_(c, le)
      if c is T.FALSE:
        continue
      cells = [Cell(T.FALSE, T.ONE)] if args == (('star',),) else [
          self.ev(a, rel, q.cells, env, outer) for a in args]
      items.append((Block(q.vars, c, [], q.cells, q.mult), cells))
    return aggregate(fn, items, opts or ())

  # ------------------------------------------------------------- expressions
  def scalar_query(self, q, env, outer):
    r = self.query(q, env, outer)
    if len(r.vis) != 1:
      raise SqlError('scalar subquery with %d columns' % len(r.cols))
    if len(r.blocks) != 1 or r.blocks[0].vars:
      raise Unsupported('scalar subquery with several rows')
    b = r.blocks[0]
    c = b.cells[r.vis[0]]
    return c if b.cond is T.TRUE else Cell(T.or_(T.neg(b.cond), c.null), c.val)

  def ev(self, e, rel, row, env, outer, win=None):
    k = e[0]
    if k == 'pos':
      return row[e[1]]
    if k == 'col':
      i = rel.find(e[1], e[2])
      return row[i] if i is not None else self.outer_col(e, outer)
    if k == 'win':
      if win is None:
        raise SqlError('window function not allowed here')
      return self.window(e, win[0], win[1], env, outer)
    if k == 'scalar':
      return self.scalar_query(e[1], env, (rel, row))
    if k == 'call' and e[1] in P.AGGS:
      raise SqlError('aggregate %s not allowed here' % e[1])
    return self.apply(e, lambda x: self.ev(x, rel, row, env, outer, win))

  def num(self, *cs):
    for c in cs:
      if c.null is not T.TRUE and c.val.sort != 'R':
        raise SqlError('arithmetic on a label or a truth value')

  def op(self, o, a, b):
    self.num(a, b)
    if a.null is T.TRUE or b.null is T.TRUE:
      return NULL
    return sympd.cell_op(o, a, b)

  def apply(self, e, ev):
    k = e[0]
    if k == 'num':
      return sympd.lift(float(e[1]) if any(c in e[1] for c in '.eE')
                        else int(e[1], 0))
    if k == 'str':
      return Cell(T.FALSE, T.klit(e[1]))
    if k == 'bool':
      return Cell(T.FALSE, T.boolean(e[1]))
    if k == 'null':
      return NULL
    if k == 'neg':
      return self.op('mul', sympd.lift(-1), ev(e[1]))
    if k == 'not':
      c = truth(ev(e[1]))
      return c if c.null is T.TRUE else Cell(c.null, T.neg(c.val))
    if k in ('and', 'or'):
      a, b = truth(ev(e[1])), truth(ev(e[2]))
      a, b = bcell(a.null, a.val), bcell(b.null, b.val)
      f = lambda c: T.and_(T.neg(c.null), T.neg(c.val))
      t = lambda c: T.and_(T.neg(c.null), c.val)
      if k == 'and':
        no, yes = T.or_(f(a), f(b)), T.and_(t(a), t(b))
      else:
        no, yes = T.and_(f(a), f(b)), T.or_(t(a), t(b))
      return Cell(T.and_(T.neg(no), T.neg(yes)), yes)
    if k == 'cmp':
      return compare(e[1], ev(e[2]), ev(e[3]))
    if k == 'isnull':
      return Cell(T.FALSE, ev(e[1]).null)
    if k == 'is':
      c = truth(ev(e[1]))
      v = bcell(c.null, c.val).val
      return Cell(T.FALSE, T.and_(T.neg(c.null), v if e[2] else T.neg(v)))
    if k == 'bin':
      return self.op({'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}[e[1]],
                     ev(e[2]), ev(e[3]))
    if k == 'cast':
      v = ev(e[1])
      if e[2] in ('FLOAT64', 'NUMERIC') and (v.null is T.TRUE or
                                             v.val.sort == 'R'):
        return v
      if e[2] == 'STRING' and (v.null is T.TRUE or v.val.sort == 'K'):
        return v  # labels are strings
      raise Unsupported('CAST AS ' + e[2])
    if k == 'call':
      fn, args = e[1], e[2]
      if fn == 'IF':
        if len(args) != 3:
          raise SqlError('IF takes three arguments')
        return ite(holds(ev(args[0])), ev(args[1]), ev(args[2]))
      if fn in ('COALESCE', 'IFNULL'):
        r = ev(args[-1])
        for a in reversed(args[:-1]):
          a = ev(a)
          r = ite(T.neg(a.null), a, r)
        return r
      if fn == 'SAFE_DIVIDE':
        return self.op('div', ev(args[0]), ev(args[1]))
      if fn == 'NULLIF':
        a, b = ev(args[0]), ev(args[1])
        return Cell(T.or_(a.null, holds(compare('=', a, b))), a.val)
      safe = fn.startswith('SAFE.')
      base = fn[5:] if safe else fn
      if base in ('POWER', 'POW'):
        return self.op('pow', ev(args[0]), ev(args[1]))
      f = {'SQRT': 'sqrt', 'ABS': 'abs', 'LN': 'log', 'LOG': 'log',
           'EXP': 'exp'}.get(base)
      if f and len(args) == 1:
        a = ev(args[0])
        self.num(a)
        return NULL if a.null is T.TRUE else sympd.cell_fn(f, a)
      raise Unsupported('SQL function ' + fn)
    raise Unsupported('SQL expression ' + str(k))


def from_frame(df):
  """The symbolic base table -> relation."""
  return Rel([('', c) for c in df._columns],
             [Block(b.vars, b.cond, [], list(b.cells), b.mult)
              for b in df._blocks])


def to_frame(rel):
  bl = []
  for n, b in enumerate(rel.blocks):
    if not b.vars and len(rel.blocks) == 1:
      idx = T.klit(0)
    else:
      idx = T._mk('app', ('rid',) + tuple(b.vars) + (
          () if len(rel.blocks) == 1 else (T.klit('#%d' % n),)), 'W')
    bl.append(Block(b.vars, b.cond, [idx], [b.cells[i] for i in rel.vis],
                    b.mult))
  return sympd.DataFrame._make(bl, [None], [rel.cols[i][1] for i in rel.vis])


def run(sql, tables):
  try:
    ast = P.parse(str(sql))
    r = Evaluator({k: from_frame(v) for k, v in tables.items()}).query(ast, {})
  except SqlUnsupported as e:
    raise Unsupported('SQL: %s' % e)
  return to_frame(r)


def executor(df):
  return lambda sql: run(sql, {'T': df})
