"""Discharges equalities between terms with z3.

Aggregates are atoms.  Before z3 is asked, the prover
  * expands sums linearly (sum(c*a + b) = c*sum(a) + sum(b)) and splits
    if-then-else summands by condition,
  * unifies atoms: two aggregates are the same value if z3 proves, for an
    arbitrary binding of the bound variables, that their conditions are
    equivalent and their summands equal,
  * decomposes sums over overlapping conditions into disjoint regions (the
    partition rule; regions are pruned by z3),
  * checks the remaining identity as a rational-function identity and, failing
    that, with z3's nonlinear real arithmetic.
Every rule is sound for finite tables of any size; nothing is unrolled.
"""
import sys
import time
from fractions import Fraction
from . import terms as T

if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
  sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # pylint: disable=g-import-not-at-top

W = z3.DeclareSort('W')


class Deadline(BaseException):
  pass


class Stats(object):

  def __init__(self):
    self.queries = 0
    self.time = 0.0
    self.unsat = 0
    self.sat = 0
    self.unknown = 0


def _draw_axiom(h):
  """Every drawn row is a row: ~any{r | C(r) & ~C(draw(r))}."""
  return h.op == 'not' and h.args[0].op == 'agg' and any(
      x.op == 'app' and x.args[0].startswith('draw')
      for x in T.subterms(h, None, True))


class Prover(object):

  def __init__(self, timeout_ms=4000):
    self.timeout = timeout_ms
    self.rlimit_per_ms = 500
    self.stats = Stats()
    self.klits = {}
    self.cache = {}
    self.rules = set()
    self.deadline = None

  # ------------------------------------------------------------ z3 encoding
  def sort(self, s):
    return {'R': z3.RealSort(), 'K': z3.RealSort(), 'B': z3.BoolSort(),
            'W': W}[s]

  def klit(self, v):
    if isinstance(v, bool):
      v = int(v)
    if isinstance(v, (int, float)):
      return z3.RealVal(str(Fraction(v)))
    if v not in self.klits:
      # string labels are pairwise distinct and distinct from numbers
      self.klits[v] = z3.RealVal(str(Fraction(10**9 + len(self.klits)) +
                                     Fraction(1, 3)))
    return self.klits[v]

  def enc(self, t, memo, env=None):
    """env: bound Var -> z3 const."""
    env = env or {}
    key = (t, tuple(sorted((v.id, str(env[v])) for v in t.fv if v in env)))
    r = memo.get(key)
    if r is None:
      r = self._enc(t, memo, env)
      memo[key] = r
    return r

  def _enc(self, t, memo, env):
    op = t.op
    e = lambda x: self.enc(x, memo, env)
    if op == 'var':
      if t in env:
        return env[t]
      return z3.Const(t.args[0], self.sort(t.sort))
    if op == 'num':
      return z3.RealVal(str(t.args[0]))
    if op == 'klit':
      return self.klit(t.args[0])
    if op == 'true':
      return z3.BoolVal(True)
    if op == 'false':
      return z3.BoolVal(False)
    if op == 'and':
      return z3.And(*[e(x) for x in t.args])
    if op == 'not':
      return z3.Not(e(t.args[0]))
    if op in ('iff', 'eq'):
      return e(t.args[0]) == e(t.args[1])
    if op == 'lt':
      if any(x.op == 'klit' and isinstance(x.args[0], str) for x in t.args):
        # the encoding of text labels does not follow their order
        f = z3.Function('klt', z3.RealSort(), z3.RealSort(), z3.BoolSort())
        return f(e(t.args[0]), e(t.args[1]))
      return e(t.args[0]) < e(t.args[1])
    if op == 'ite':
      return z3.If(e(t.args[0]), e(t.args[1]), e(t.args[2]))
    if op == 'add':
      return z3.Sum(*[e(x) for x in t.args])
    if op == 'mul':
      return z3.Product(*[e(x) for x in t.args])
    if op == 'pow':
      b, x = t.args
      if x.denominator == 1:
        n = int(x)
        be = e(b)
        if abs(n) <= 6:
          r = be
          for _ in range(abs(n) - 1):
            r = r * be
          return r if n > 0 else z3.RealVal(1) / r
      f = z3.Function('pow_%s' % x, z3.RealSort(), z3.RealSort())
      return f(e(b))
    if op == 'app':
      fn = t.args[0]
      args = [x for x in t.args[1:] if isinstance(x, T.Term)]
      extra = [str(x) for x in t.args[1:] if not isinstance(x, T.Term)]
      name = fn + ''.join('#' + x for x in extra)
      if not args:
        return z3.Const(name, self.sort(t.sort))
      f = z3.Function(name, *([self.sort(x.sort) for x in args] +
                              [self.sort(t.sort)]))
      return f(*[e(x) for x in args])
    if op == 'agg':
      kind, bvars, cond, exprs = t.args
      if kind == 'any':
        env2 = dict(env)
        cs = []
        for v in bvars:
          c = z3.Const(T.fresh('z', v.sort).args[0], self.sort(v.sort))
          env2[v] = c
          cs.append(c)
        return z3.Exists(cs, self.enc(cond, memo, env2))
      fv = sorted(t.fv, key=lambda v: v.id)
      name = 'agg_%d' % t.id
      if not fv:
        return z3.Const(name, self.sort(t.sort))
      f = z3.Function(name, *([self.sort(v.sort) for v in fv] +
                              [self.sort(t.sort)]))
      return f(*[e(v) for v in fv])
    raise ValueError(op)

  def check(self, hyps, goal, timeout=None):
    """True iff hyps |= goal proved by z3."""
    if goal is T.TRUE:
      return True
    if goal in hyps:
      return True
    key = (frozenset(hyps), goal)
    if key in self.cache:
      return self.cache[key]
    t0 = time.time()
    if self.deadline and t0 > self.deadline:
      raise Deadline()
    axs = [h for h in hyps if _draw_axiom(h)]
    if axs:  # without the draws, or one draw at a time without arithmetic
      rest = [h for h in hyps if h not in axs]
      facts = [h for h in rest if not any(
          x.op == 'agg' and x.args[0] != 'any'
          for x in T.subterms(h, None, True))]
      res = self.check(rest, goal, timeout)
      if not res and goal.sort == 'B' and goal.op != 'eq' and not any(
          x.op == 'lt' for x in T.subterms(goal)):
        res = any(self._check([a] + facts, goal, timeout, t0) for a in axs)
      self.cache[key] = res
      return res
    return self._check(hyps, goal, timeout, t0)

  def _check(self, hyps, goal, timeout, t0):
    key = (frozenset(hyps), goal)
    if key in self.cache:
      return self.cache[key]
    s = z3.Solver()
    # resource limit, not wall clock: the verdict does not depend on load
    s.set('rlimit', int((timeout or self.timeout) * self.rlimit_per_ms))
    s.set('timeout', 60000)
    s.set('random_seed', 1)
    memo = {}
    for h in hyps:
      if h is T.FALSE:
        return True
      s.add(self.enc(h, memo))
    s.add(z3.Not(self.enc(goal, memo)))
    if any(_draw_axiom(h) for h in hyps):
      # a row to instantiate quantifiers with (tables are not empty)
      row = z3.Const('row!', W)
      for x in T.subterms(T.and_(goal, *hyps), None, True):
        if x.op == 'app' and x.args[0].startswith('col:') and (
            x.sort == 'K'):
          s.add(z3.Function('seen', z3.RealSort(), z3.BoolSort())(
              z3.Function(x.args[0], W, z3.RealSort())(row)))
    try:
      r = s.check()
    except z3.Z3Exception:
      r = z3.unknown
    self.stats.queries += 1
    self.stats.time += time.time() - t0
    if r == z3.unsat:
      self.stats.unsat += 1
    elif r == z3.sat:
      self.stats.sat += 1
    else:
      self.stats.unknown += 1
    res = r == z3.unsat
    self.cache[key] = res
    return res

  def consistent(self, hyps):
    """Vacuity guard: False if hyps are provably contradictory."""
    return not self.check(list(hyps), T.FALSE)

  # ------------------------------------------------------------ public
  def prove(self, hyps, goal, split=2):
    """Proves a boolean goal under hyps."""
    if split == 2:
      g = T.recombine(goal)
      if g is not goal:
        self.rules.add('sum over a complement')
        goal = g
        hyps = [T.recombine(h) for h in hyps]
      if goal is T.TRUE:
        return True
    hyps = [h for x in hyps for h in (T.conjuncts(x) or [x]) if h is not T.TRUE]
    if split == 2:
      for t in T.subterms(goal, None, True):
        p = T.several(t) if all(
            v.args[0].startswith('key!') for v in t.fv) else None
        if p is None or not any(T.has(goal, x) for x in p):
          continue
        self.rules.add('case split on the number of labels')
        for v in (T.TRUE, T.FALSE):
          memo = {}
          m = {x: v for x in p}
          h = [T.replace(x, m, memo) for x in hyps] + [
              x if v is T.TRUE else T.neg(x) for x in p]
          if T.FALSE in h or not self.consistent(h):
            continue
          g = goal
          for _ in range(4):
            g0, g = g, T.replace(g, m, {})
            if g is g0:
              break
          if v is T.FALSE:
            g = T.single(g, p[1])
          if not self.prove(h, g, 1):
            return False
        return True
    for h in hyps:  # what is assumed holds below the quantifiers, too
      atom, val = (h.args[0], T.FALSE) if h.op == 'not' else (h, T.TRUE)
      if (atom.op == 'agg' or atom.op == 'eq' and
          atom.args[0].sort == 'K') and T.has(goal, atom):
        goal = T.replace(goal, {atom: val})
    if self._prove1(hyps, goal):
      return True
    # case split of a generic label against the literals it is compared with
    eqs = {}
    for x in T.subterms(T.and_(goal, *hyps), None, True):
      if x.op == 'eq' and x.args[0].sort == 'K' and split:
        for v, l in (x.args, x.args[::-1]):
          if v.op == 'var' and l.op == 'klit' and v.args[0].startswith('key!'):
            eqs.setdefault(v, set()).add(l)
    for v, ls in sorted(eqs.items(), key=lambda y: y[0].id):
      if len(ls) > 6:
        continue
      self.rules.add('case split on a label')
      for l in sorted(ls, key=lambda y: y.id):
        m = {v: l}
        h = [T.subst(x, m) for x in hyps]
        if T.FALSE in h or not self.consistent(h):
          continue
        if not self.prove(h, T.subst(goal, m), split - 1):
          return False
      m = {T.eq(v, l): T.FALSE for l in ls}
      h = [T.replace(x, m) for x in hyps] + [T.neg(T.eq(v, l)) for l in ls]
      if T.FALSE not in h and self.consistent(h) and not self.prove(
          h, T.replace(goal, m), 0):
        return False
      return True
    return False

  def _prove1(self, hyps, goal):
    lem = []
    ags = [a for a in T.subterms(goal) if a.op == 'agg' and a.args[0] == 'sum']
    if len(ags) <= 40 and any(x.op == 'ite' for x in T.subterms(goal)):
      for a in ags:
        if a.args[3][0] is not T.ONE:
          lem += self.sign_lemmas(hyps, a, T.agg('any', a.args[1], a.args[2]))
    return self._prove_bool(hyps + lem, goal, 0)

  def _prove_and(self, hyps, goal, depth):
    todo = sorted(goal.args, key=lambda g: (T._depth(g), g.id))
    while todo:
      g = todo.pop(0)
      if not self._prove_bool(hyps, g, depth):
        return False
      # what is proved holds in the rest, also below the quantifiers
      atom, val = (g.args[0], T.FALSE) if g.op == 'not' else (g, T.TRUE)
      if atom.op in ('eq', 'lt', 'agg'):
        todo = [c for t in todo for c in (T.conjuncts(
            T.replace(t, {atom: val}) if T.has(t, atom) else t))]
    return True

  def _prove_bool(self, hyps, goal, depth):
    if goal is T.TRUE:
      return True
    if goal.op == 'and':
      return self._prove_and(hyps, goal, depth)
    if goal.op == 'eq' and goal.args[0].sort == 'R':
      return self.prove_eq(hyps, goal.args[0], goal.args[1], depth)
    g1 = self.signs(hyps, goal)
    if g1 is not goal:
      self.rules.add('sign of squares/counts')
      goal = g1
      if goal is T.TRUE:
        return True
      if goal.op == 'and':
        return self._prove_and(hyps, goal, depth)
    if self.check(hyps, goal):
      return True
    g2, h2 = self.unify_goal(hyps, goal, depth)
    if self.check(h2, g2):
      return True
    g3 = self.zero_forms(h2, g2)
    if g3 is not g2 and self.check(h2, g3):
      self.rules.add('zero of a rational form')
      return True
    if depth == 0 and self.singleton(h2, g2):
      self.rules.add('case split: one row / several rows')
      return True
    return False

  def singleton(self, hyps, goal):
    """Case split on a row set having exactly one row.

    If count{r | C} = 1 every sum over the set is its body at that row.
    """
    ags = [a for a in T.subterms(goal) if a.op == 'agg' and a.args[0] == 'sum']
    cs = [a for a in ags if a.args[3][0] is T.ONE]
    for n in cs[:3]:
      fr = [T.fresh('one', v.sort) for v in n.args[1]]
      c1 = T.subst(n.args[2], dict(zip(n.args[1], fr)))

      def inst(x):
        for _ in range(3):
          m = {}
          for a in T.subterms(x):
            if a.op == 'agg' and a.args[0] == 'sum' and [
                v.sort for v in a.args[1]] == [v.sort for v in fr]:
              sub = dict(zip(a.args[1], fr))
              if T.subst(a.args[2], sub) is c1:
                m[a] = T.subst(a.args[3][0], sub)
          if not m:
            break
          x = T.replace(x, m)
        return x
      g1 = inst(goal)
      # lemmas about the replaced sums may become trivial, never false
      h1 = [inst(h) for h in hyps] + [c1]
      if not (self.check(h1, g1) or self.check(h1, self.zero_forms(h1, g1))):
        continue
      h2 = list(hyps) + [T.or_(T.eq(n, T.ZERO), T.le(T.num(2), n))]
      if self.check(h2, goal) or self.check(h2, self.zero_forms(h2, goal)):
        return True
    return False

  def zero_forms(self, hyps, goal):
    """Rewrites `0 = t` to `0 = p`, p the reduced numerator polynomial of t.

    Denominators are assumed non-zero (as in rational identities); a monomial
    factor is divided out only if it is non-zero under hyps.
    """
    m = {}
    for x in T.subterms(goal):
      if x.op != 'eq' or x.args[0].sort != 'R':
        continue
      a, b = x.args
      if a is not T.ZERO and b is not T.ZERO:
        continue
      t = b if a is T.ZERO else a
      if not any(y.op == 'agg' for y in T.subterms(t)):
        continue
      try:
        p = rational_numerator(t)
      except OverflowError:
        continue
      if not p:
        m[x] = T.TRUE if p is not None and not p else x
        continue
      com = None
      for mono in p:
        d = dict(mono)
        com = d if com is None else {k: min(e, d[k]) for k, e in com.items()
                                     if k in d}
      div = []
      keep = []
      for k, e in sorted(com.items(), key=lambda y: y[0].id):
        if self.check(hyps, T.neg(T.eq(T.ZERO, k))):
          div.append((k, -e))
        else:
          div.append((k, -e))
          keep.append(T.eq(T.ZERO, k))
      q = {}
      for mono, c in p.items():
        _madd(q, _mmul(mono, tuple(div)), c)
      lead = q[min(q, key=lambda mm: [(k.id, e) for k, e in mm])]
      q = {mono: c / lead for mono, c in q.items()}
      if len(q) == 1 and not list(q)[0]:
        core = T.FALSE
      else:
        core = T.eq(T.ZERO, from_poly(q))
      m[x] = T.or_(core, *keep)
    m = {k: v for k, v in m.items() if k is not v}
    return T.replace(goal, m) if m else goal

  def signs(self, hyps, t):
    """Resolves `e < 0` atoms whose sign is determined in context."""
    if not any(x.op == 'lt' and T.ZERO in x.args for x in T.subterms(t)):
      return t

    def go(x, ctx):
      if x.op == 'and':
        out = []
        for a in x.args:
          others = [o for o in x.args if o is not a and o.op != 'iff']
          out.append(go(a, ctx + others))
        return T.and_(*out)
      if x.op == 'not':
        return T.neg(go(x.args[0], ctx))
      if x.op == 'iff':
        return T.iff(go(x.args[0], ctx), go(x.args[1], ctx))
      if x.op == 'lt' and x.args[1] is T.ZERO:
        if self.nonneg(ctx, x.args[0]):
          return T.FALSE
      return x

    return go(t, list(hyps))

  def nonneg(self, hyps, t):
    if t.op == 'num':
      return t.args[0] >= 0
    if t.op == 'pow':
      e = t.args[1]
      if e.denominator != 1 or int(e) % 2 == 0:
        return True
      return self.nonneg(hyps, t.args[0])
    if t.op == 'mul':
      rest = list(t.args)
      for f in list(rest):
        if rest.count(f) % 2 == 0:
          rest = [x for x in rest if x is not f]
      return all(self.nonneg(hyps, f) for f in rest)
    if t.op == 'agg' and t.args[0] == 'sum':
      return self.nonneg(list(hyps) + T.conjuncts(t.args[2]), t.args[3][0])
    if t.op == 'ite':
      return self.nonneg(list(hyps) + [t.args[0]], t.args[1]) and self.nonneg(
          list(hyps) + [T.neg(t.args[0])], t.args[2])
    if t.op == 'add' and all(self.nonneg(hyps, x) for x in t.args
                             if x.op == 'num') and all(
                                 self.nonneg(hyps, x) for x in t.args):
      return True
    if self.check(hyps, T.le(T.ZERO, t)):
      return True
    ags = [a for a in T.subterms(t) if a.op == 'agg' and a.args[0] == 'sum']
    if t.op == 'add' and 1 < len(ags) < 8:
      t2 = self.canon_linear(hyps, t, 0)
      ags = [a for a in T.subterms(t2) if a.op == 'agg' and
             a.args[0] == 'sum']
      lem = self.cauchy_schwarz(hyps, ags)
      if lem:
        for a in ags:
          lem += self.sign_lemmas(hyps, a, T.agg('any', a.args[1], a.args[2]))
        return self.check(list(hyps) + lem, T.le(T.ZERO, t2))
    return False

  def sign_lemmas(self, hyps, a, ex):
    """Signs of a sum whose summands all have that sign."""
    e = a.args[3][0]
    h = list(hyps) + T.conjuncts(a.args[2])
    if self.check(h, T.lt(T.ZERO, e), 800):
      return [T.le(T.ZERO, a), T.implies(ex, T.lt(T.ZERO, a))]
    if self.nonneg(h, e):
      return [T.le(T.ZERO, a)]
    return []

  def unify_goal(self, hyps, goal, depth):
    """Rewrites aggregates in goal and hyps to canonical representatives."""
    allt = T.and_(goal)
    ags = [a for a in T.subterms(allt) if a.op == 'agg' and
           a.args[0] != 'any']
    for h in hyps:
      ags += [a for a in T.subterms(h) if a.op == 'agg' and
              a.args[0] != 'any']
    m, lem = {}, []
    for a in ags:
      x = self.canon_linear(hyps, a, depth)
      if x is not a:
        m[a] = x
    if m:
      goal = T.replace(goal, m)
      hyps = [T.replace(h, m) for h in hyps]
    ags = sorted({a for x in [goal] + list(hyps) for a in T.subterms(x)
                  if a.op == 'agg' and a.args[0] != 'any'},
                 key=lambda t: t.id)
    m = self.unify_atoms(hyps, ags, depth)
    if m:
      goal = T.replace(goal, m)
      hyps = [T.replace(h, m) for h in hyps]
    for a in {m.get(x, x) for x in ags}:
      if a.args[0] == 'sum' and a.args[3][0] is T.ONE:
        ex = T.agg('any', a.args[1], a.args[2])
        lem.append(T.le(T.ZERO, a))
        lem.append(T.iff(ex, T.le(T.ONE, a)))
        lem.append(T.implies(T.neg(ex), T.eq(a, T.ZERO)))
      elif a.args[0] == 'sum':
        ex = T.agg('any', a.args[1], a.args[2])
        lem.append(T.implies(T.neg(ex), T.eq(a, T.ZERO)))
        lem += self.sign_lemmas(hyps, a, ex)
    lem += self.cauchy_schwarz(hyps, sorted({m.get(x, x) for x in ags},
                                            key=lambda t: t.id))
    return goal, list(hyps) + lem

  def cauchy_schwarz(self, hyps, ags):
    """(sum p q)^2 <= (sum p)(sum p q^2) for p >= 0, over one row set."""
    sums = [a for a in ags if a.args[0] == 'sum']
    out = []
    for s in sums:
      for b in sums:
        if b is s or len(s.args[1]) != len(b.args[1]):
          continue
        mp = dict(zip(b.args[1], s.args[1]))
        if T.subst(b.args[2], mp) is not s.args[2]:
          continue
        p, pq = s.args[3][0], T.subst(b.args[3][0], mp)
        if p is T.ONE:
          q = pq
        else:
          fp = list(pq.args) if pq.op == 'mul' else [pq]
          pf = list(p.args) if p.op == 'mul' else [p]
          try:
            for f in pf:
              fp.remove(f)
          except ValueError:
            continue
          q = T.mul(*fp)
        if q.op == 'num':
          continue
        a = T.agg('sum', s.args[1], s.args[2], T.mul(p, T.power(q, 2)))
        for x in sums:
          if x is a or self.same_atom(hyps, x, a, 2):
            h = list(hyps) + T.conjuncts(s.args[2])
            if self.check(h, T.le(T.ZERO, p), 800):
              out.append(T.le(T.power(b, 2), T.mul(s, x)))
              self.rules.add('Cauchy-Schwarz')
    return out

  # ------------------------------------------------------------ equality
  def prove_eq(self, hyps, a, b, depth=0):
    if a is b:
      return True
    if depth > 4:
      return False
    # case split on top-level ites whose condition is decidable
    a = self.simplify(hyps, a)
    b = self.simplify(hyps, b)
    if a is b:
      return True
    sp = self._find_ite(a) or self._find_ite(b)
    if sp is not None and depth <= 3:
      c = sp.args[0]
      for h, pick in ((c, 1), (T.neg(c), 2)):
        h2 = list(hyps) + [h]
        if not self.consistent(h2):
          continue
        m = {sp: sp.args[pick]}
        if not self.prove_eq(h2, T.replace(a, m), T.replace(b, m), depth + 1
                             if depth > 2 else depth):
          return False
      return True
    if a.op == 'pow' and b.op == 'pow' and a.args[1] == b.args[1]:
      if self.prove_eq(hyps, a.args[0], b.args[0], depth):
        return True
    a2 = self.canon_linear(hyps, a, depth)
    b2 = self.canon_linear(hyps, b, depth)
    if a2 is b2:
      return True
    if self._find_ite(a2) is not None or self._find_ite(b2) is not None:
      if a2 is not a or b2 is not b:
        return self.prove_eq(hyps, a2, b2, depth + 1)
    if self.rational_zero(T.minus(a2, b2)):
      return True
    # unify atoms
    m = self.unify_atoms(hyps, self.atoms([a2, b2]), depth)
    a3, b3 = T.replace(a2, m), T.replace(b2, m)
    if a3 is b3 or self.rational_zero(T.minus(a3, b3)):
      return True
    # sqrt(n*t) = sqrt(n)*sqrt(t) for a count n
    half = Fraction(1, 2)
    rts = sorted({x for x in list(T.subterms(a3)) + list(T.subterms(b3))
                  if x.op == 'pow' and abs(x.args[1]) == half},
                 key=lambda t: t.id)
    bases = sorted({x.args[0] for x in rts}, key=lambda t: t.id)
    cnts = [x for x in self.atoms([a3, b3]) if x.op == 'agg' and
            x.args[0] == 'sum' and x.args[3][0] is T.ONE]
    if 1 < len(bases) <= 4 and 1 <= len(cnts) <= 2 and depth == 0:
      m3 = {}
      for x in bases:
        for y in bases:
          if x is y or x in m3 or y in m3:
            continue
          for n in cnts:
            if self.rational_zero(T.minus(x, T.mul(n, y))):
              m3[x] = (n, y)
              break
      if m3:
        self.rules.add('root of a multiple')
        m3 = {r: T.mul(T.power(m3[r.args[0]][0], r.args[1]),
                       T.power(m3[r.args[0]][1], r.args[1]))
              for r in rts if r.args[0] in m3}
        a3, b3 = T.replace(a3, m3), T.replace(b3, m3)
        if a3 is b3 or self.rational_zero(T.minus(a3, b3)):
          return True
    # partition rule
    m2 = self.regions(hyps, [a3, b3], depth)
    if m2:
      a4, b4 = T.replace(a3, m2), T.replace(b3, m2)
      if a4 is b4 or self.rational_zero(T.minus(a4, b4)):
        self.rules.add('partition')
        return True
      a3, b3 = a4, b4
    # equations in hypotheses + nonlinear arithmetic
    h2 = [T.replace(h, m) for h in hyps]
    lem = []
    for x in self.atoms([a3, b3]):
      if x.op == 'agg' and x.args[0] == 'sum' and x.args[3][0] is T.ONE:
        ex = T.agg('any', x.args[1], x.args[2])
        lem += [T.iff(ex, T.le(T.ONE, x)), T.implies(T.neg(ex),
                                                     T.eq(x, T.ZERO))]
      elif x.op == 'agg' and x.args[0] == 'sum':
        ex = T.agg('any', x.args[1], x.args[2])
        lem += [T.implies(T.neg(ex), T.eq(x, T.ZERO))]
    return self.check(h2 + lem, T._mk('eq', tuple(sorted(
        (a3, b3), key=lambda t: t.id)), 'B'))

  def _find_ite(self, t):
    for x in T.subterms(t):
      if x.op == 'ite':
        return x
    return None

  def simplify(self, hyps, t):
    """Resolves ites decided by hyps."""
    while True:
      m = {}
      for x in T.subterms(t):
        if x.op == 'ite':
          if self.check(hyps, x.args[0], 1500):
            m[x] = x.args[1]
            break
          if self.check(hyps, T.neg(x.args[0]), 1500):
            m[x] = x.args[2]
            break
      if not m:
        return t
      t = T.replace(t, m)

  def atoms(self, ts):
    """Maximal non-arithmetic subterms (aggregates, roots, apps)."""
    out = {}

    def go(x):
      if x.op in ('add', 'mul'):
        for a in x.args:
          go(a)
      elif x.op == 'pow' and x.args[1].denominator == 1:
        go(x.args[0])
      elif x.op == 'pow':
        out[x] = True
        go(x.args[0])
      elif x.op == 'num':
        pass
      else:
        out[x] = True
        if x.op == 'app':
          for a in x.args[1:]:
            if isinstance(a, T.Term):
              go(a)

    for t in ts:
      go(t)
    return sorted(out, key=lambda t: t.id)

  def unify_atoms(self, hyps, atoms, depth):
    reps = []
    m = {}
    for a in atoms:
      for r in reps:
        if self.same_atom(hyps, r, a, depth):
          m[a] = r
          break
      else:
        reps.append(a)
    return m

  def same_atom(self, hyps, a, b, depth):
    if a is b:
      return True
    if a.op != b.op or a.sort != b.sort:
      return False
    if depth > 3:
      return False
    if a.op == 'pow':
      return a.args[1] == b.args[1] and self.prove_eq(
          hyps, a.args[0], b.args[0], depth + 1)
    if a.op == 'app':
      if a.args[0] != b.args[0] or len(a.args) != len(b.args):
        return False
      for x, y in zip(a.args[1:], b.args[1:]):
        if isinstance(x, T.Term) and isinstance(y, T.Term):
          if x is y:
            continue
          if x.sort == 'R':
            if not self.prove_eq(hyps, x, y, depth + 1):
              return False
          elif not self.check(hyps, T.eq(x, y)):
            return False
        elif x != y:
          return False
      return True
    if a.op == 'agg':
      return self.same_agg(hyps, a, b, depth)
    return False

  def same_agg(self, hyps, a, b, depth):
    key = ('sa', frozenset(hyps), a, b)
    if key in self.cache:
      return self.cache[key]
    self.cache[key] = False
    r = self._same_agg(hyps, a, b, depth)
    self.cache[key] = r
    return r

  def _same_agg(self, hyps, a, b, depth):
    k1, b1, c1, e1 = a.args
    k2, b2, c2, e2 = b.args
    if k1 != k2 or len(e1) != len(e2):
      return False
    if sorted(v.sort for v in b1) != sorted(v.sort for v in b2):
      return False
    for perm in self._perms(b1, b2):
      fr = [T.fresh('u', v.sort) for v in b1]
      s1 = dict(zip(b1, fr))
      s2 = dict(zip(perm, fr))
      x1, x2 = T.subst(c1, s1), T.subst(c2, s2)
      if x1 is not x2 and not self._prove_bool(list(hyps), T.iff(x1, x2),
                                               depth + 1):
        continue
      ok = True
      for p, q in zip(e1, e2):
        p, q = T.subst(p, s1), T.subst(q, s2)
        if p is q:
          continue
        h = list(hyps) + T.conjuncts(x1)
        if p.sort == 'R':
          ok = self.prove_eq(h, p, q, depth + 1)
        else:
          ok = self._prove_bool(h, T.eq(p, q), depth + 1)
        if not ok:
          break
      if ok:
        self.rules.add('aggregate congruence')
        return True
    return False

  def _perms(self, b1, b2):
    import itertools
    for p in itertools.permutations(b2):
      if all(x.sort == y.sort for x, y in zip(b1, p)):
        yield p

  # ------------------------------------------------------------ linearity
  def canon_linear(self, hyps, t, depth):
    """Expands every sum aggregate in t into sums of monomials."""
    memo = {}

    def go(x):
      r = memo.get(x)
      if r is not None:
        return r
      if x.op == 'agg':
        kind, bv, c, es = x.args
        if kind == 'sum':
          r = self.expand_sum(hyps, x, depth)
        else:
          r = x
      elif x.op in ('var', 'num', 'klit', 'true', 'false'):
        r = x
      else:
        r = T.rebuild(x, [go(a) if isinstance(a, T.Term) else a
                          for a in x.args])
      memo[x] = r
      return r

    return go(t)

  def expand_sum(self, hyps, x, depth):
    key = ('es', x)
    if key in self.cache:
      return self.cache[key]
    kind, bv, c, es = x.args
    fr = [T.fresh('s', v.sort) for v in bv]
    m = dict(zip(bv, fr))
    c, e = T.subst(c, m), T.subst(es[0], m)
    if depth < 3 and any(y.op == 'agg' and y.args[0] == 'sum'
                         for y in T.subterms(e)):
      e = self.canon_linear(hyps, e, depth + 1)
    res = self._expand(fr, c, e)
    self.cache[key] = res
    return res

  def _expand(self, bv, c, e):
    bs = set(bv)
    top = set(T.conjuncts(c))
    for y in T.subterms(T.and_(*[x for x in top if x.op == 'not' and
                                 x.args[0].op != 'eq'])):
      # split a sum over labels at a label that is mentioned in its condition
      if y.op == 'eq' and y.args[0].sort == 'K' and T.neg(y) not in top:
        for v, l in (y.args, y.args[::-1]):
          if v in bs and l.op == 'klit':
            self.rules.add('split of a sum at a label')
            m = {v: l}
            rest = [x for x in bv if x is not v]
            c1, e1 = T.subst(c, m), T.subst(e, m)
            one = T.agg('sum', [v], T.and_(T.eq(v, l), c), e) if (
                not rest) else self._expand(rest, c1, e1)
            ne = T.and_(T.replace(c, {y: T.FALSE}), T.neg(y))
            return T.add(one, T.ZERO if ne is T.FALSE else self._expand(
                bv, ne, e))
    for y in T.subterms(e):
      if y.op == 'ite' and (y.fv & bs):
        cc = y.args[0]
        return T.add(
            self._expand(bv, T.and_(c, cc), T.replace(e, {y: y.args[1]})),
            self._expand(bv, T.and_(c, T.neg(cc)),
                         T.replace(e, {y: y.args[2]})))
    poly = to_poly(e)
    if poly is None:
      return T.agg('sum', bv, c, e)
    out = []
    for mono, coef in poly.items():
      inner, outer = [], [T.num(coef)]
      for atom, ex in mono:
        (inner if atom.fv & bs else outer).append(T.power(atom, ex))
      out.append(T.mul(*(outer + [T.agg('sum', bv, c, T.mul(*inner))])))
    self.rules.add('linearity')
    return T.add(*out)

  # ------------------------------------------------------------ regions
  def regions(self, hyps, ts, depth):
    """Partition rule: rewrites overlapping sums into disjoint regions."""
    sums = [a for a in self.atoms(ts) if a.op == 'agg' and a.args[0] == 'sum']
    groups = []
    for s in sums:
      bv, c, e = s.args[1], s.args[2], s.args[3][0]
      for g in groups:
        gb = g['bv']
        if [v.sort for v in gb] != [v.sort for v in bv]:
          continue
        m = dict(zip(bv, gb))
        # summands must be identical
        if T.subst(e, m) is g['e']:
          g['items'].append((s, T.subst(c, m)))
          break
      else:
        fr = [T.fresh('p', v.sort) for v in bv]
        m = dict(zip(bv, fr))
        groups.append({'bv': fr, 'e': T.subst(e, m),
                       'items': [(s, T.subst(c, m))]})
    out = {}
    for g in groups:
      n = len(g['items'])
      if n < 2 or n > 5:
        continue
      conds = [c for _, c in g['items']]
      regs = [((), T.TRUE)]
      for c in conds:
        nxt = []
        for bits, r in regs:
          for bit, cc in ((True, c), (False, T.neg(c))):
            rr = T.and_(r, cc)
            if rr is T.FALSE:
              continue
            if self.check(list(hyps), T.neg(rr)):
              continue
            nxt.append((bits + (bit,), rr))
        regs = nxt
      for i, (s, _) in enumerate(g['items']):
        parts = []
        for bits, r in regs:
          if bits[i]:
            parts.append(T.app('region:%d:%s' % (
                g['e'].id, ','.join(str(x) for x in sorted(
                    c.id if b else -c.id for b, c in zip(bits, conds)))), (),
                               'R'))
        out[s] = T.add(*parts)
    return out

  # ------------------------------------------------------------ algebra
  def rational_zero(self, t):
    """t == 0 as a rational function (denominators assumed non-zero)."""
    try:
      n = rational_numerator(t)
    except OverflowError:
      return False
    if n is not None and not n:
      self.rules.add('rational identity')
      return True
    return False


def _madd(p, mono, c):
  v = p.get(mono, 0) + c
  if v:
    p[mono] = v
  else:
    p.pop(mono, None)


def _mmul(m1, m2):
  d = dict(m1)
  for a, e in m2:
    d[a] = d.get(a, 0) + e
    if d[a] == 0:
      del d[a]
  return tuple(sorted(d.items(), key=lambda x: x[0].id))


def pmul(p, q):
  if len(p) * len(q) > 100000:
    raise OverflowError
  r = {}
  for m1, c1 in p.items():
    for m2, c2 in q.items():
      _madd(r, _mmul(m1, m2), c1 * c2)
  return r


def to_poly(t):
  """Laurent polynomial over atoms: dict monomial -> coef.

  A power of a sum with non-positive-integer exponent is an atom.
  """
  if t.op == 'num':
    return {(): t.args[0]} if t.args[0] else {}
  if t.op == 'add':
    r = {}
    for a in t.args:
      for m, c in to_poly(a).items():
        _madd(r, m, c)
    return r
  if t.op == 'mul':
    r = {(): Fraction(1)}
    for a in t.args:
      r = pmul(r, to_poly(a))
    return r
  if t.op == 'pow':
    b, e = t.args
    p = to_poly(b)
    if e.denominator == 1 and e > 0 and e <= 8:
      r = {(): Fraction(1)}
      for _ in range(int(e)):
        r = pmul(r, p)
      return r
    if len(p) == 1:
      (mono, c), = p.items()
      if c == 1 or e.denominator == 1 or (len(mono) == 0):
        if not mono:
          return {((t, Fraction(1)),): Fraction(1)}
        cc = Fraction(c)**int(e) if e.denominator == 1 else Fraction(1)
        return {tuple((a, x * e) for a, x in mono): cc}
    base = from_poly(p)
    # normalise sign/content so that equal bases intern
    return {((base, e),): Fraction(1)}
  return {((t, Fraction(1)),): Fraction(1)}


def from_poly(p):
  return T.add(*[T.mul(*([T.num(c)] + [T.power(a, e) for a, e in m]))
                 for m, c in p.items()])


def rational_numerator(t, rounds=8):
  """Clears denominators; returns the numerator polynomial (dict)."""
  p = to_poly(t)
  for _ in range(rounds):
    # atoms that are sums (compound) with negative or >=1 exponents
    neg = {}
    for m in p:
      for a, e in m:
        if e < 0:
          neg[a] = min(neg.get(a, 0), e)
    if neg:
      shift = tuple(sorted(((a, -e) for a, e in neg.items()),
                           key=lambda x: x[0].id))
      q = {}
      for m, c in p.items():
        _madd(q, _mmul(m, shift), c)
      p = q
    comp = False
    q = {}
    for m, c in p.items():
      acc = {(): c}
      for a, e in m:
        if a.op in ('add', 'mul', 'pow') and e >= 1:
          k = e.numerator // e.denominator
          fr = e - k
          pa = to_poly(a)
          for _ in range(k):
            acc = pmul(acc, pa)
          if fr:
            acc = pmul(acc, {((a, fr),): Fraction(1)})
          comp = True
        else:
          acc = pmul(acc, {((a, e),): Fraction(1)})
      for m2, c2 in acc.items():
        _madd(q, m2, c2)
    p = q
    if not comp and not any(e < 0 for m in p for _, e in m):
      return p
  return p
