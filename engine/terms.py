"""Term language of the verifier.

Hash-consed first-order terms over rows of an unbounded table, keys, and reals,
with comprehension-style aggregates ("sum over all rows r with cond(r) of
expr(r)").  Every term has a concrete evaluator (used to search and replay
counterexamples and to validate the dependency contracts against pandas) and a
translation to z3 (prover.py).

Sorts: 'R' real, 'K' key (group/unit labels), 'B' bool, 'W' row identity.
"""
import itertools
import math
from fractions import Fraction

_TABLE = {}
_COUNTER = itertools.count()


class Term(object):
  __slots__ = ('op', 'args', 'sort', 'fv', 'id', 'size')

  def __repr__(self):
    return show(self)

  def __hash__(self):
    return self.id

  def __eq__(self, other):
    return self is other

  def __deepcopy__(self, memo):
    return self

  def __copy__(self):
    return self


def _mk(op, args, sort):
  key = (op, args, sort)
  t = _TABLE.get(key)
  if t is None:
    t = Term()
    t.op, t.args, t.sort = op, args, sort
    t.id = len(_TABLE) + 1
    if op == 'var':
      t.fv = frozenset([t])
      t.size = 1
    elif op == 'agg':
      kind, bvars, cond, exprs = args
      fv = cond.fv
      size = 2 + cond.size
      for e in exprs:
        fv = fv | e.fv
        size += e.size
      t.fv = fv - frozenset(bvars)
      t.size = size
    else:
      fv = frozenset()
      size = 1
      for a in args:
        if isinstance(a, Term):
          fv = fv | a.fv
          size += a.size
      t.fv = fv
      t.size = size
    _TABLE[key] = t
  return t


_MARK = []


def rewind():
  """Forgets the terms made since the first call, so that what is proved of an
  obligation doesn't depend on what was proved before in this process."""
  global _COUNTER
  if not _MARK:
    _MARK.extend((len(_TABLE), next(_COUNTER) + 1))
  else:
    for k, t in list(_TABLE.items()):
      if t.id > _MARK[0]:
        del _TABLE[k]
    for t in list(_DEPTH):
      if t.id > _MARK[0]:
        del _DEPTH[t]
    _COMPL.clear()
  _REC.clear()
  _COUNTER = itertools.count(_MARK[1])


# ---------------------------------------------------------------- leaves
def var(name, sort):
  return _mk('var', (name,), sort)


def fresh(prefix, sort):
  return var('%s!%d' % (prefix, next(_COUNTER)), sort)


def num(v):
  if isinstance(v, Term):
    return v
  if isinstance(v, bool):
    v = int(v)
  if isinstance(v, float):
    if v == int(v):
      v = Fraction(int(v))
    else:
      v = Fraction(repr(v))
  return _mk('num', (Fraction(v),), 'R')


def klit(v):
  return _mk('klit', (v,), 'K')


TRUE = _mk('true', (), 'B')
FALSE = _mk('false', (), 'B')
ZERO = num(0)
ONE = num(1)


def boolean(b):
  return TRUE if b else FALSE


def app(f, args, sort):
  return _mk('app', (f,) + tuple(args), sort)


# ---------------------------------------------------------------- booleans
def and_(*xs):
  out = []
  seen = set()

  def go(x):
    if x is TRUE or x in seen:
      return True
    if x is FALSE:
      return False
    if x.op == 'and':
      return all(go(a) for a in x.args)
    if neg(x) in seen:
      return False
    seen.add(x)
    out.append(x)
    return True

  for x in xs:
    if not go(x):
      return FALSE
  if len(out) > 1:
    out = _subsume(out)
    if out is None:
      return FALSE
  if not out:
    return TRUE
  if len(out) == 1:
    return out[0]
  out.sort(key=lambda t: t.id)
  return _mk('and', tuple(out), 'B')


def _subsume(out):
  """Drops what any{r | C & D} implies of any{r | C}; None if contradictory."""
  pos, ngs = [], []
  for t in out:
    n = t.op == 'not'
    a = t.args[0] if n else t
    if a.op == 'agg' and a.args[0] == 'any':
      (ngs if n else pos).append((t, a.args[1], set(conjuncts(a.args[2]))))
  if not pos and not ngs:
    return out
  drop = set()
  for t in out:
    # a sum over no rows is 0
    if t.op == 'eq' and t.args[0] is ZERO or t.op == 'eq' and (
        t.args[1] is ZERO):
      y = t.args[1] if t.args[0] is ZERO else t.args[0]
      if y.op == 'agg' and y.args[0] == 'sum' and any(
          b == y.args[1] and c <= set(conjuncts(y.args[2]))
          for _, b, c in ngs):
        drop.add(t)
  for t, b, c in pos:
    for t2, b2, c2 in pos:
      if t2 is not t and b == b2 and c < c2:
        drop.add(t)
      elif len(b) == 1 < len(b2) and any(
          v.sort == b[0].sort and all(subst(x, {b[0]: v}) in c2 for x in c)
          for v in b2):
        drop.add(t)
    for _, b2, c2 in ngs:
      if b == b2 and c2 <= c:
        return None
  for t, b, c in ngs:
    for t2, b2, c2 in ngs:
      if t2 is not t and b == b2 and c2 < c:
        drop.add(t)
  return [t for t in out if t not in drop] if drop else out


def or_(*xs):
  return neg(and_(*[neg(x) for x in xs]))


def neg(x):
  if x is TRUE:
    return FALSE
  if x is FALSE:
    return TRUE
  if x.op == 'not':
    return x.args[0]
  return _mk('not', (x,), 'B')


def implies(a, b):
  return or_(neg(a), b)


def iff(a, b):
  if a is b:
    return TRUE
  if a is TRUE:
    return b
  if b is TRUE:
    return a
  if a is FALSE:
    return neg(b)
  if b is FALSE:
    return neg(a)
  if a.id > b.id:
    a, b = b, a
  return _mk('iff', (a, b), 'B')


def eq(a, b):
  if a is b:
    return TRUE
  if a.op == 'num' and b.op == 'num':
    return boolean(a.args[0] == b.args[0])
  if a.op == 'klit' and b.op == 'klit':
    return boolean(a.args[0] == b.args[0])
  if a.sort == 'B':
    return iff(a, b)
  if a.sort != b.sort:
    # numeric literal compared with a key column
    if a.op == 'num' and b.sort == 'K':
      return eq(klit(_pynum(a)), b)
    if b.op == 'num' and a.sort == 'K':
      return eq(a, klit(_pynum(b)))
    if a.op == 'klit' and b.sort == 'R' and isinstance(a.args[0], (int, float)):
      return eq(num(a.args[0]), b)
    if b.op == 'klit' and a.sort == 'R' and isinstance(b.args[0], (int, float)):
      return eq(a, num(b.args[0]))
    return FALSE
  for x, y in ((a, b), (b, a)):
    # zero of a product / quotient / root (quotients are not 0 at infinity)
    if x is ZERO and y.op == 'mul':
      fs = [f for f in y.args if not (f.op == 'pow' and f.args[1] < 0)]
      return or_(*[eq(ZERO, f) for f in fs])
    if (x is ZERO and y.op == 'agg' and y.args[0] == 'sum' and
        y.args[3][0] is ONE):
      # no group is there: rows of a set given by equalities
      e = agg('any', y.args[1], y.args[2])
      if e.op != 'agg' or all(
          (c.args[0] if c.op == 'not' else c).op == 'eq'
          for c in conjuncts(e.args[2])):
        return neg(e)
    if x is ZERO and y.op == 'pow':
      return eq(ZERO, y.args[0]) if y.args[1] > 0 else FALSE
  if a.id > b.id:
    a, b = b, a
  return _mk('eq', (a, b), 'B')


def _pynum(t):
  f = t.args[0]
  return int(f) if f.denominator == 1 else float(f)


def lt(a, b):
  a, b = _samesort(a, b)
  if a is b:
    return FALSE
  if a.op == 'num' and b.op == 'num':
    return boolean(a.args[0] < b.args[0])
  for x, y in ((a, b), (b, a)):
    if x.op == 'num' and y.op == 'add' and len(y.args) == 2:
      n = [z for z in y.args if z.op == 'num']
      o = [z for z in y.args if z.op != 'num']
      if n and o[0].op == 'agg' and o[0].args[3][0] is ONE:
        r = add(x, num(-n[0].args[0]))
        return lt(r, o[0]) if x is a else lt(o[0], r)
  for x, y in ((a, b), (b, a)):
    if x.op == 'num' and y.op == 'ite' and ZERO in y.args[1:]:
      f = (lambda t: lt(x, t)) if x is a else (lambda t: lt(t, x))
      return ite(y.args[0], f(y.args[1]), f(y.args[2]))
  return _mk('lt', (a, b), 'B')


def _samesort(a, b):
  if a.sort != b.sort:
    if a.op == 'num':
      a = klit(_pynum(a))
    elif b.op == 'num':
      b = klit(_pynum(b))
    elif a.op == 'klit':
      a = num(a.args[0])
    elif b.op == 'klit':
      b = num(b.args[0])
  return a, b


def le(a, b):
  return neg(lt(b, a))


def ite(c, a, b):
  if c is TRUE:
    return a
  if c is FALSE:
    return b
  if a is b:
    return a
  if a.sort == 'B':
    return or_(and_(c, a), and_(neg(c), b))
  if c.op == 'not':
    return ite(c.args[0], b, a)
  if c.op == 'agg' and c.args[0] == 'any' and b is ZERO and a.op == 'agg' and (
      a.args[0] == 'sum' and a.args[1] == c.args[1] and
      set(conjuncts(c.args[2])) <= set(conjuncts(a.args[2]))):
    return a  # a sum over no rows is 0
  return _mk('ite', (c, a, b), a.sort)


# ---------------------------------------------------------------- reals
def add(*xs):
  out = []
  c = Fraction(0)
  for x in xs:
    items = x.args if x.op == 'add' else (x,)
    for i in items:
      if i.op == 'num':
        c += i.args[0]
      else:
        out.append(i)
  if c != 0:
    out.append(num(c))
  if not out:
    return ZERO
  if len(out) == 1:
    return out[0]
  out.sort(key=lambda t: t.id)
  return _mk('add', tuple(out), 'R')


def mul(*xs):
  out = []
  c = Fraction(1)
  for x in xs:
    items = x.args if x.op == 'mul' else (x,)
    for i in items:
      if i.op == 'num':
        c *= i.args[0]
      else:
        out.append(i)
  if c == 0:
    return ZERO
  if c != 1:
    out.append(num(c))
  if not out:
    return ONE
  if len(out) == 1:
    return out[0]
  out.sort(key=lambda t: t.id)
  return _mk('mul', tuple(out), 'R')


def minus(a, b):
  return add(a, mul(num(-1), b))


def power(a, e):
  """e: python number -> Fraction exponent."""
  e = Fraction(e).limit_denominator(10**6)
  if e == 0:
    return ONE
  if e == 1:
    return a
  if a.op == 'num' and e.denominator == 1 and (a.args[0] != 0 or e > 0):
    return num(a.args[0]**int(e))
  if a.op == 'num' and a.args[0] > 0 and e.denominator == 2:
    n = a.args[0]
    rn, rd = math.isqrt(n.numerator), math.isqrt(n.denominator)
    if rn * rn == n.numerator and rd * rd == n.denominator:
      return num(Fraction(rn, rd)**int(e * 2))
  if a.op == 'pow':
    # (x**p)**q = x**(pq): null flags already exclude negative bases of roots
    return power(a.args[0], a.args[1] * e)
  return _mk('pow', (a, e), 'R')


def div(a, b):
  return mul(a, power(b, -1))


def sqrt(a):
  return power(a, Fraction(1, 2))


# ---------------------------------------------------------------- aggregates
def conjuncts(c):
  return list(c.args) if c.op == 'and' else ([] if c is TRUE else [c])


def _one_point(bvars, cond):
  """Finds v (bound), t with conjunct v = t, v not in fv(t)."""
  for c in conjuncts(cond):
    if c.op == 'eq':
      a, b = c.args
      for v, t in ((a, b), (b, a)):
        if v in bvars and v not in t.fv and v.sort == t.sort:
          # prefer eliminating key vars; rows can only be eliminated for rows
          return v, t
  return None


def _alpha(bvars, cond, exprs):
  """Canonical bound variable names (so alpha-equivalent aggregates intern)."""
  used = [v for v in bvars]
  depth = _max_depth(cond, exprs) + 1
  ren = {}
  for i, v in enumerate(used):
    ren[v] = var('_b%d_%d' % (depth, i), v.sort)
  if all(k is v for k, v in ren.items()):
    return tuple(used), cond, exprs
  return (tuple(ren[v] for v in used), subst(cond, ren),
          tuple(subst(e, ren) for e in exprs))


_DEPTH = {}


def _depth(t):
  d = _DEPTH.get(t)
  if d is None:
    if t.op == 'agg':
      d = 1 + _max_depth(t.args[2], t.args[3])
    else:
      d = max([_depth(a) for a in t.args if isinstance(a, Term)] or [0])
    _DEPTH[t] = d
  return d


def _max_depth(cond, exprs):
  return max([_depth(cond)] + [_depth(e) for e in exprs])


def agg(kind, bvars, cond, *exprs):
  """kind: 'sum','min','max','any','opq:<name>' ; exprs depend on kind."""
  bvars = list(bvars)
  exprs = list(exprs)
  if kind == 'any' and exprs:
    raise ValueError
  sort = 'B' if kind == 'any' else 'R'
  if kind.startswith('kopq:'):
    sort = 'K'
  if kind.startswith('bopq:'):
    sort = 'B'
  while True:
    if cond is FALSE:
      if kind == 'sum':
        return ZERO
      if kind == 'any':
        return FALSE
      break
    # flatten any(any) : any_x(c & any_y(d)) = any_{x,y}(c & d)
    changed = False
    if kind == 'any':
      for c in conjuncts(cond):
        if c.op == 'agg' and c.args[0] == 'any':
          inner = _freshen(c)
          bvars += list(inner[0])
          cond = and_(*([x for x in conjuncts(cond) if x is not c] +
                        [inner[1]]))
          changed = True
          break
    if kind in ('sum', 'min', 'max') and exprs[0].op == 'agg' and exprs[
        0].args[0] == kind:
      inner = exprs[0]
      fb, fc, fe = _freshen_full(inner)
      bvars += list(fb)
      cond = and_(cond, fc)
      exprs = [fe[0]]
      changed = True
    if kind in ('sum', 'min', 'max', 'any'):
      op = _one_point(bvars, cond)
      if op is not None:
        v, t = op
        bvars.remove(v)
        cond = subst(cond, {v: t})
        exprs = [subst(e, {v: t}) for e in exprs]
        changed = True
    if not changed:
      break
  if kind in ('sum', 'any', 'min', 'max'):
    w = _witnessed(bvars, cond, exprs)
    if w is not None:
      return agg(kind, bvars, *w)
  p = _others(bvars, cond)
  if p is not None:
    return agg(kind, bvars, p, *exprs)
  if cond.op == 'and' or exprs:
    known = [c for c in conjuncts(cond)
             if c.op == 'agg' or c.op == 'not' and c.args[0].op == 'agg']
    for k in known:
      atom, val = (k, TRUE) if k.op == 'agg' else (k.args[0], FALSE)
      rest = [c for c in conjuncts(cond) if c is not k]
      memo = {}
      rest2 = [replace(c, {atom: val}, memo) if has(c, atom) else c
               for c in rest]
      exprs2 = [replace(e, {atom: val}, memo) if has(e, atom) else e
                for e in exprs]
      if any(a is not b for a, b in zip(rest + exprs, rest2 + exprs2)):
        return agg(kind, bvars, and_(k, *rest2), *exprs2)
  if kind == 'any':
    # drop bound vars not occurring (domains are nonempty)
    bvars = [v for v in bvars if v in cond.fv]
  if not bvars:
    if kind == 'any':
      return cond
    if kind == 'sum':
      return ite(cond, exprs[0], ZERO)
    if kind in ('min', 'max'):
      return exprs[0]
  bvars.sort(key=lambda v: (v.sort, v.args[0]))
  if kind in ('sum', 'any') and cond.op == 'and' or kind == 'any':
    # pull conjuncts not depending on bound vars outside
    inn = [c for c in conjuncts(cond) if c.fv & set(bvars)]
    out = [c for c in conjuncts(cond) if not (c.fv & set(bvars))]
    if out:
      if kind == 'any':
        return and_(agg('any', bvars, and_(*inn)), *out)
      return ite(and_(*out), agg('sum', bvars, and_(*inn), *exprs), ZERO)
  if kind == 'sum' and len(bvars) > 1:
    r = _factor(bvars, cond, exprs[0])
    if r is not None:
      return r
  if kind == 'any' and len(bvars) > 1:
    groups = _components(bvars, conjuncts(cond))
    if len(groups) > 1:
      return and_(*[agg('any', [v for v in bvars if v in g],
                        and_(*[c for c in conjuncts(cond) if c.fv & g]))
                    for g in groups])
  b, c, e = _alpha(bvars, cond, tuple(exprs))
  if ('agg', (kind, b, c, e), sort) not in _TABLE and 1 < len(b) <= 4:
    # the same term with its bound variables in another order?
    for q in itertools.permutations(bvars):
      if [v.sort for v in q] == [v.sort for v in bvars]:
        b2, c2, e2 = _alpha(q, cond, tuple(exprs))
        if ('agg', (kind, b2, c2, e2), sort) in _TABLE:
          return _TABLE[('agg', (kind, b2, c2, e2), sort)]
  return _mk('agg', (kind, b, c, e), sort)


def several(t):
  """(1 < t, two different labels exist) for t the number of labels."""
  if t.op == 'agg' and t.args[0] == 'sum' and t.args[3][0] is ONE and (
      len(t.args[1]) == 1 and t.args[1][0].sort == 'K'):
    c = t.args[2]
    if c.op == 'agg' and c.args[0] == 'any' and all(
        x.op == 'eq' for x in conjuncts(c.args[2])):
      v = t.args[1][0]
      a, b = fresh('q', 'K'), fresh('q', 'K')
      return lt(ONE, t), agg('any', [a, b], and_(
          subst(c, {v: a}), subst(c, {v: b}), neg(eq(a, b))))
  return None


def _others(bvars, cond):
  """Given any(u = k & C): any(u != k & C) iff C holds for two different u."""
  if cond.op != 'and':
    return None
  cs = conjuncts(cond)
  anys = [(x, set(conjuncts(x.args[2]))) for x in cs
          if x.op == 'agg' and x.args[0] == 'any' and len(x.args[1]) == 1]
  for x, c in anys:
    for e in c:
      if e.op == 'eq' and e.args[0].sort == 'K':
        o = (c - {e}) | {neg(e)}
        for y, d in anys:
          if d == o and x.args[1] == y.args[1]:
            r = x.args[1][0]
            for k, u in (e.args, e.args[::-1]):
              if k in bvars and r in u.fv and r not in k.fv:
                w = fresh('q', r.sort)
                rest = [z for z in c if z is not e]
                if any(k in z.fv for z in rest):
                  continue
                two = agg('any', [r, w], and_(
                    *rest, *[subst(z, {r: w}) for z in rest],
                    neg(eq(u, subst(u, {r: w})))))
                return and_(*[z for z in cs if z is not y], two)
  return None


def single(t, pair, memo=None):
  """Given that no two rows have different labels (~pair): where some row has
  label k, sums over the rows with other labels are 0."""
  memo = {} if memo is None else memo
  if t in memo:
    return memo[t]
  if t.op != 'agg':
    r = rebuild(t, [single(a, pair, memo) if isinstance(a, Term) else a
                    for a in t.args])
  else:
    fb, fc, fe = _freshen_full(t)
    fc = single(fc, pair, memo)
    fe = [single(e, pair, memo) for e in fe]
    known = [c for c in conjuncts(fc) if c.op == 'agg' and c.args[0] == 'any']
    m = {}
    for s in [x for e in [fc] + fe for x in subterms(e, None, True)]:
      if s.op != 'agg' or s.args[0] not in ('sum', 'any') or len(
          s.args[1]) != 1 or s in m:
        continue
      c = conjuncts(s.args[2])
      r = s.args[1][0]
      for e in c:
        if e.op == 'not' and e.args[0].op == 'eq' and (
            e.args[0].args[0].sort == 'K'):
          rest = [z for z in c if z is not e]
          if agg('any', [r], and_(e.args[0], *rest)) not in known:
            continue
          for k, u in (e.args[0].args, e.args[0].args[::-1]):
            if k in fb and r in u.fv and not any(k in z.fv for z in rest):
              w = fresh('q', r.sort)
              two = agg('any', [r, w], and_(
                  *rest, *[subst(z, {r: w}) for z in rest],
                  neg(eq(u, subst(u, {r: w})))))
              if two is pair:
                m[s] = ZERO if s.args[0] == 'sum' else FALSE
    if m:
      fc, fe = replace(fc, m), [replace(e, m) for e in fe]
    r = agg(t.args[0], fb, fc, *fe)
  memo[t] = r
  return r


def congruence(t, memo=None):
  """Below a binder with u(r) = k, k from outside, k is written for u(r)."""
  memo = {} if memo is None else memo
  if t in memo:
    return memo[t]
  if t.op != 'agg':
    r = rebuild(t, [congruence(a, memo) if isinstance(a, Term) else a
                    for a in t.args])
  else:
    fb, fc, fe = _freshen_full(t)
    fc = congruence(fc, memo)
    fe = [congruence(e, memo) for e in fe]
    bv = set(fb)
    for c in conjuncts(fc):
      if c.op == 'eq' and c.args[0].sort == 'K':
        for x, k in (c.args, c.args[::-1]):
          if x.op == 'app' and x.fv & bv and not k.fv & bv:
            fc = and_(c, *[replace(z, {x: k}) for z in conjuncts(fc)
                           if z is not c])
            fe = [replace(e, {x: k}) for e in fe]
    r = agg(t.args[0], fb, fc, *fe)
  memo[t] = r
  return r


def _witnessed(bvars, cond, exprs):
  """any_x(p(x)) is TRUE in a context which has p(y)."""
  cs = set(conjuncts(cond))
  bv = set(bvars)
  seen, todo, m = set(), list(cs) + list(exprs), {}
  while todo:
    x = todo.pop()
    if x in seen or not (x.fv & bv):
      continue
    seen.add(x)
    if x.op == 'agg':
      if x.args[0] == 'any' and len(x.args[1]) == 1:
        v = x.args[1][0]
        for w in bvars:
          if w.sort == v.sort and all(
              p is TRUE or p in cs for p in conjuncts(
                  subst(x.args[2], {v: w}))):
            m[x] = TRUE
            break
    elif x.op not in ('var', 'num', 'klit'):
      todo += [a for a in x.args if isinstance(a, Term)]
  if not m:
    return None
  memo = {}
  return [replace(cond, m, memo)] + [replace(e, m, memo) for e in exprs]


def has(t, atom):
  """Whether atom occurs in t."""
  seen, todo = set(), [t]
  d = _depth(atom)
  while todo:
    x = todo.pop()
    if x is atom:
      return True
    if x in seen or _depth(x) < d or not atom.fv <= x.fv:
      continue
    seen.add(x)
    if x.op == 'agg':
      todo.append(x.args[2])
      todo += x.args[3]
    else:
      todo += [a for a in x.args if isinstance(a, Term)]
  return False


def _freshen(a):
  ren = {v: fresh('q', v.sort) for v in a.args[1]}
  return [ren[v] for v in a.args[1]], subst(a.args[2], ren)


def _freshen_full(a):
  ren = {v: fresh('q', v.sort) for v in a.args[1]}
  return ([ren[v] for v in a.args[1]], subst(a.args[2], ren),
          [subst(e, ren) for e in a.args[3]])


def exists(bvars, cond):
  return agg('any', bvars, cond)


# ---------------------------------------------------------------- subst
def subst(t, m, memo=None):
  if memo is None:
    memo = {}
    m = {k: v for k, v in m.items() if k is not v}
  if not m or not (t.fv & m.keys()):
    return t
  r = memo.get(t)
  if r is not None:
    return r
  if t.op == 'var':
    r = m.get(t, t)
  elif t.op == 'agg':
    kind, bvars, cond, exprs = t.args
    # avoid capture
    rng = set()
    for k, v in m.items():
      rng |= v.fv
    ren = {}
    for v in bvars:
      if v in rng or v in m:
        ren[v] = fresh('q', v.sort)
    m2 = {k: v for k, v in m.items() if k not in bvars}
    m2.update(ren)
    r = agg(kind, [ren.get(v, v) for v in bvars], subst(cond, m2),
            *[subst(e, m2) for e in exprs])
  else:
    r = rebuild(t, [subst(a, m, memo) if isinstance(a, Term) else a
                    for a in t.args])
  memo[t] = r
  return r


def replace(t, m, memo=None):
  """Replaces whole subterms (not under binders that capture)."""
  if memo is None:
    memo = {}
  if t in m:
    return m[t]
  r = memo.get(t)
  if r is not None:
    return r
  if t.op == 'agg':
    kind, bvars, cond, exprs = t.args
    r = agg(kind, bvars, replace(cond, m, memo),
            *[replace(e, m, memo) for e in exprs])
  else:
    r = rebuild(t, [replace(a, m, memo) if isinstance(a, Term) else a
                    for a in t.args])
  memo[t] = r
  return r


def _components(bvars, terms):
  """Partition of bvars into sets which no term connects."""
  bv = set(bvars)
  groups = []
  for t in terms:
    vs = t.fv & bv
    hit = [g for g in groups if g & vs]
    if vs:
      groups = [g for g in groups if g not in hit] + [
          set(vs).union(*hit)]
  for v in bvars:
    if not any(v in g for g in groups):
      groups.append({v})
  return groups


def _factor(bvars, cond, e):
  """sum_{x,y | A(x) and B(y)} f(x) g(y) = (sum_x f) (sum_y g)."""
  bv = set(bvars)
  fs = list(e.args) if e.op == 'mul' else [e]
  groups = _components(bvars, conjuncts(cond) + fs)
  if len(groups) < 2:
    return None
  out = []
  for g in groups:
    out.append(agg('sum', [v for v in bvars if v in g],
                   and_(*[c for c in conjuncts(cond) if c.fv & g]),
                   mul(ONE, *[f for f in fs if f.fv & g])))
  return mul(*out, *[f for f in fs if not f.fv & bv])


def _monomial(t):
  c, fs = Fraction(1), []
  for f in (t.args if t.op == 'mul' else (t,)):
    if f.op == 'num':
      c *= f.args[0]
    else:
      fs.append(f)
  return c, fs


def _recombine(ts):
  """sum over A - sum over (A and u = k) = sum over (A and u != k)."""
  ts = list(ts)
  again = True
  while again:
    again = False
    monos = [_monomial(t) for t in ts]
    table = {}
    for n, (c, fs) in enumerate(monos):
      for f in fs:
        if f.op == 'agg' and f.args[0] == 'sum':
          rest = tuple(sorted((x.id for x in fs if x is not f)))
          table[c, rest, f] = n
    for (c, rest, f), n in table.items():
      kind, bvars, cond, exprs = f.args
      for e in conjuncts(cond):
        if e.op == 'eq' and all(a.sort == 'K' and a.op != 'klit'
                                for a in e.args):
          out = and_(*[x for x in conjuncts(cond) if x is not e])
          whole = agg(kind, bvars, out, *exprs)
          m = table.get((-c, rest, whole))
          if m is not None and m != n:
            others = [x for x in monos[n][1] if x is not f]
            new = mul(num(-c), agg(kind, bvars, and_(out, neg(e)), *exprs),
                      *others)
            ts = [t for i, t in enumerate(ts) if i not in (m, n)] + [new]
            again = True
            break
      if again:
        break
  return ts


_REC = {}


def recombine(t):
  r = _REC.get(t)
  if r is not None:
    return r
  if t.op == 'agg':
    kind, bvars, cond, exprs = t.args
    r = agg(kind, bvars, recombine(cond), *[recombine(e) for e in exprs])
  else:
    a = [recombine(x) if isinstance(x, Term) else x for x in t.args]
    r = add(*_recombine(a)) if t.op == 'add' else rebuild(t, a)
  _REC[t] = r
  return r


_COMPL = {}


def complement(t):
  """sum over (A and u != k) = sum over A - sum over (A and u = k)."""
  r = _COMPL.get(t)
  if r is not None:
    return r
  if t.op == 'agg':
    kind, bvars, cond, exprs = t.args
    cond = complement(cond)
    exprs = [complement(e) for e in exprs]
    r = None
    if kind == 'sum':
      for c in conjuncts(cond):
        if c.op == 'not' and c.args[0].op == 'eq' and all(
            a.sort == 'K' and a.op != 'klit' for a in c.args[0].args):
          rest = and_(*[x for x in conjuncts(cond) if x is not c])
          r = complement(add(
              agg(kind, bvars, rest, *exprs),
              mul(num(-1), agg(kind, bvars, and_(rest, c.args[0]), *exprs))))
          break
    if r is None:
      r = agg(kind, bvars, cond, *exprs)
  else:
    r = rebuild(t, [complement(a) if isinstance(a, Term) else a
                    for a in t.args])
  _COMPL[t] = r
  return r


def rebuild(t, a):
  op = t.op
  if op in ('var', 'num', 'klit', 'true', 'false'):
    return t
  if op == 'and':
    return and_(*a)
  if op == 'not':
    return neg(a[0])
  if op == 'iff':
    return iff(*a)
  if op == 'eq':
    return eq(*a)
  if op == 'lt':
    return lt(*a)
  if op == 'ite':
    return ite(*a)
  if op == 'add':
    return add(*a)
  if op == 'mul':
    return mul(*a)
  if op == 'pow':
    return power(*a)
  if op == 'app':
    return _mk('app', tuple(a), t.sort)
  raise ValueError(op)


def subterms(t, acc=None, into_agg=False):
  if acc is None:
    acc = {}
  if t in acc:
    return acc
  acc[t] = True
  if t.op == 'agg':
    if into_agg:
      subterms(t.args[2], acc, True)
      for e in t.args[3]:
        subterms(e, acc, True)
  else:
    for a in t.args:
      if isinstance(a, Term):
        subterms(a, acc, into_agg)
  return acc


# ---------------------------------------------------------------- printing
def show(t, depth=0):
  if depth > 12:
    return '...'
  d = depth + 1
  op = t.op
  if op == 'var':
    return t.args[0]
  if op == 'num':
    return str(t.args[0])
  if op == 'klit':
    return repr(t.args[0])
  if op in ('true', 'false'):
    return op
  if op == 'and':
    return '(' + ' & '.join(show(a, d) for a in t.args) + ')'
  if op == 'not':
    return '~' + show(t.args[0], d)
  if op == 'iff':
    return '(%s <=> %s)' % (show(t.args[0], d), show(t.args[1], d))
  if op == 'eq':
    return '%s = %s' % (show(t.args[0], d), show(t.args[1], d))
  if op == 'lt':
    return '%s < %s' % (show(t.args[0], d), show(t.args[1], d))
  if op == 'ite':
    return 'if(%s, %s, %s)' % tuple(show(a, d) for a in t.args)
  if op == 'add':
    return '(' + ' + '.join(show(a, d) for a in t.args) + ')'
  if op == 'mul':
    return '(' + ' * '.join(show(a, d) for a in t.args) + ')'
  if op == 'pow':
    return '%s^%s' % (show(t.args[0], d), t.args[1])
  if op == 'app':
    return '%s(%s)' % (t.args[0], ', '.join(
        show(a, d) if isinstance(a, Term) else str(a) for a in t.args[1:]))
  if op == 'agg':
    kind, b, c, e = t.args
    return '%s{%s | %s}[%s]' % (kind, ','.join(
        '%s:%s' % (v.args[0], v.sort) for v in b), show(c, d), ', '.join(
            show(x, d) for x in e))
  return op


# ---------------------------------------------------------------- evaluation
class EvalError(Exception):
  pass


class Env(object):
  """Concrete interpretation: one base table per row-space, UFs, key domain."""

  def __init__(self, tables, keydom, ufs=None, opaque=None):
    self.tables = tables  # name -> list of dict rows
    self.keydom = list(keydom)
    self.ufs = ufs if ufs is not None else {}
    self.opaque = opaque if opaque is not None else {}
    self.memo = {}


def _korder(v):
  return (0, v, '') if isinstance(v, (int, float)) else (1, 0, str(v))


def ev(t, env, a):
  """Evaluates t under env and assignment a (dict var -> value)."""
  key = (t, tuple(sorted((v.id, _hashable(a[v])) for v in t.fv if v in a)))
  if key in env.memo:
    return env.memo[key]
  r = _ev(t, env, a)
  env.memo[key] = r
  return r


def _hashable(v):
  return v


def _fdiv(x, e):
  try:
    if isinstance(x, Fraction) and e.denominator == 1:
      if x == 0 and e < 0:
        return math.inf
      return x**int(e)
    x = float(x)
    if x == 0 and e < 0:
      return math.inf
    if x < 0 and e.denominator != 1:
      return math.nan
    if math.isinf(x) and e < 0:
      return 0.0
    return x**float(e)
  except OverflowError:
    return math.inf


def _ev(t, env, a):
  op = t.op
  if op == 'var':
    if t not in a:
      raise EvalError('unassigned %s' % t.args[0])
    return a[t]
  if op == 'num':
    return t.args[0]
  if op == 'klit':
    return t.args[0]
  if op == 'true':
    return True
  if op == 'false':
    return False
  if op == 'and':
    return all(ev(x, env, a) for x in t.args)
  if op == 'not':
    return not ev(t.args[0], env, a)
  if op == 'iff':
    return bool(ev(t.args[0], env, a)) == bool(ev(t.args[1], env, a))
  if op == 'eq':
    x, y = ev(t.args[0], env, a), ev(t.args[1], env, a)
    if isinstance(x, float) or isinstance(y, float):
      try:
        return x == y or abs(x - y) <= 1e-9 * (1 + abs(x) + abs(y))
      except (TypeError, OverflowError):
        return x == y
    return x == y
  if op == 'lt':
    x, y = ev(t.args[0], env, a), ev(t.args[1], env, a)
    if t.args[0].sort == 'K':
      return _korder(x) < _korder(y)
    if x is None or y is None:
      return False
    if isinstance(x, float) or isinstance(y, float):
      if x == y or (math.isfinite(x) and math.isfinite(y) and
                    abs(x - y) <= 1e-9 * (1 + abs(x) + abs(y))):
        return False
    return x < y
  if op == 'ite':
    return ev(t.args[1], env, a) if ev(t.args[0], env, a) else ev(
        t.args[2], env, a)
  if op == 'add':
    r = Fraction(0)
    for x in t.args:
      r = r + ev(x, env, a)
    return r
  if op == 'mul':
    r = Fraction(1)
    for x in t.args:
      v = ev(x, env, a)
      try:
        r = r * v
      except OverflowError:
        r = float(r) * float(v)
    return r
  if op == 'pow':
    return _fdiv(ev(t.args[0], env, a), t.args[1])
  if op == 'app':
    f = t.args[0]
    xs = [ev(x, env, a) if isinstance(x, Term) else x for x in t.args[1:]]
    if f.startswith('col:'):
      _, tab, col = f.split(':', 2)
      return env.tables[tab][xs[0]][col]
    if f.startswith('null:'):
      _, tab, col = f.split(':', 2)
      return env.tables[tab][xs[0]].get(col) is None
    if f in env.ufs:
      return env.ufs[f](*xs)
    raise EvalError('no interpretation for %s' % f)
  if op == 'agg':
    kind, bvars, cond, exprs = t.args
    rows = []
    for asg in _assignments(bvars, env, cond):
      a2 = dict(a)
      a2.update(asg)
      if ev(cond, env, a2):
        if kind == 'any':
          return True
        rows.append(tuple(ev(e, env, a2) for e in exprs))
    if kind == 'any':
      return False
    if kind == 'sum':
      r = Fraction(0)
      for x in rows:
        r = r + x[0]
      return r
    if kind == 'min':
      return min((x[0] for x in rows if x[0] is not None), default=math.nan)
    if kind == 'max':
      return max((x[0] for x in rows if x[0] is not None), default=math.nan)
    name = kind.split(':', 1)[1]
    if name in env.opaque:
      return env.opaque[name](rows, env)
    raise EvalError('no interpretation for %s' % kind)
  raise EvalError(op)


def _assignments(bvars, env, cond):
  doms = []
  for v in bvars:
    if v.sort == 'W':
      # row vars: table name is encoded as prefix before ':' ; default T
      doms.append(range(len(env.tables['T'])))
    elif v.sort == 'K':
      doms.append(env.keydom)
    else:
      raise EvalError('cannot enumerate sort %s' % v.sort)
  for vals in itertools.product(*doms):
    yield dict(zip(bvars, vals))
