"""Contract layer for the part of pandas that /repo uses.

Frames are comprehensions over an unbounded number of rows:
    { (index terms ; cells) | bound vars : cond }
A frame is a finite union of such blocks.  Each method below *is* the assumed
contract of the pandas method of the same name (validated against real pandas
on every run by replaying the evaluated result of every obligation on concrete
tables).  Anything not covered raises Unsupported, which makes the obligation
undischarged; it never makes it pass.
"""
import ast
import builtins
import math
import numbers
from fractions import Fraction

import numpy as _np

from engine import symctx
from engine import terms as T
from engine.symctx import Unsupported

_uid = [0]


def use(name):
  if symctx.CTX is not None:
    symctx.CTX.used_contracts.add(name)


class Cell(object):
  __slots__ = ('null', 'val')

  def __init__(self, null, val):
    self.null, self.val = null, val

  def subst(self, m):
    return Cell(T.subst(self.null, m), T.subst(self.val, m))

  def __repr__(self):
    return '<%s ?null %s>' % (self.val, self.null)


def lift(v):
  """Python/numpy scalar or SymNum -> Cell."""
  if isinstance(v, Cell):
    return v
  if isinstance(v, SymNum):
    return v.cell
  if isinstance(v, SymBool):
    return Cell(T.FALSE, v.term)
  if isinstance(v, SymKey):
    return Cell(T.FALSE, v.term)
  if v is None:
    return Cell(T.TRUE, T.ZERO)
  if isinstance(v, (bool, _np.bool_)):
    return Cell(T.FALSE, T.boolean(bool(v)))
  if isinstance(v, (int, _np.integer)):
    return Cell(T.FALSE, T.num(int(v)))
  if isinstance(v, (float, _np.floating)):
    v = float(v)
    if math.isnan(v):
      return Cell(T.TRUE, T.ZERO)
    if math.isinf(v):
      raise Unsupported('inf literal')
    return Cell(T.FALSE, T.num(v))
  if isinstance(v, Fraction):
    return Cell(T.FALSE, T.num(v))
  if isinstance(v, str):
    return Cell(T.FALSE, T.klit(v))
  if isinstance(v, T.Term):
    return Cell(T.FALSE, v)
  raise Unsupported('scalar %r' % (v,))


def is_scalar(v):
  return v is None or isinstance(
      v, (SymNum, SymBool, SymKey, bool, int, float, str, _np.generic, Fraction,
          Cell))


def ite_cell(c, a, b):
  return Cell(T.ite(c, a.null, b.null) if a.null is not b.null else a.null,
              T.ite(c, a.val, b.val))


NAN = Cell(T.TRUE, T.ZERO)


def _asnum(t):
  if t.sort == 'B':
    return T.ite(t, T.ONE, T.ZERO)
  return t


def cell_op(op, a, b):
  null = T.or_(a.null, b.null)
  if op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    x, y = a.val, b.val
    if op == 'eq':
      r = T.and_(T.neg(null), T.eq(x, y))
    elif op == 'ne':
      r = T.or_(null, T.neg(T.eq(x, y)))
    elif op == 'lt':
      r = T.and_(T.neg(null), T.lt(x, y))
    elif op == 'gt':
      r = T.and_(T.neg(null), T.lt(y, x))
    elif op == 'le':
      r = T.and_(T.neg(null), T.le(x, y))
    else:
      r = T.and_(T.neg(null), T.le(y, x))
    return Cell(T.FALSE, r)
  if op == 'and':
    return Cell(T.FALSE, T.and_(a.val, b.val))
  if op == 'or':
    return Cell(T.FALSE, T.or_(a.val, b.val))
  x, y = _asnum(a.val), _asnum(b.val)
  if x.sort != 'R' or y.sort != 'R':
    raise Unsupported('arithmetic on non-numeric')
  if op == 'add':
    return Cell(null, T.add(x, y))
  if op == 'sub':
    return Cell(null, T.minus(x, y))
  if op == 'mul':
    return Cell(null, T.mul(x, y))
  if op == 'div':
    z = T.and_(T.eq(x, T.ZERO), T.eq(y, T.ZERO))
    return Cell(T.or_(null, z), T.div(x, y))
  if op == 'pow':
    if y.op == 'num':
      e = y.args[0]
      if e.denominator == 1:
        return Cell(null, T.power(x, e))
      return Cell(T.or_(null, T.lt(x, T.ZERO)), T.power(x, e))
    return Cell(null, T.app('powr', (x, y), 'R'))
  raise Unsupported('operator %s' % op)


def cell_fn(name, a):
  if name == 'sqrt':
    return Cell(T.or_(a.null, T.lt(a.val, T.ZERO)), T.sqrt(a.val))
  if name == 'neg':
    return Cell(a.null, T.mul(T.num(-1), a.val))
  if name == 'abs':
    return Cell(a.null, T.ite(T.lt(a.val, T.ZERO), T.mul(T.num(-1), a.val),
                              a.val))
  if name == 'not':
    return Cell(T.FALSE, T.neg(a.val))
  if name == 'isnull':
    return Cell(T.FALSE, a.null)
  if name == 'log':
    # log(0) is not a number here; in pandas 0 * log(0) is missing, too.
    return Cell(T.or_(a.null, T.le(a.val, T.ZERO)), T.app(
        'fn_log', (a.val,), 'R'))
  if name in ('exp', 'floor', 'ceil'):
    return Cell(a.null, T.app('fn_' + name, (a.val,), 'R'))
  raise Unsupported('function %s' % name)


# ------------------------------------------------------------------ scalars
_UFUNC = {
    'add': 'add', 'subtract': 'sub', 'multiply': 'mul', 'true_divide': 'div',
    'divide': 'div', 'power': 'pow', 'float_power': 'pow', 'less': 'lt',
    'less_equal': 'le', 'greater': 'gt', 'greater_equal': 'ge', 'equal': 'eq',
    'not_equal': 'ne', 'logical_and': 'and', 'logical_or': 'or',
    'bitwise_and': 'and', 'bitwise_or': 'or',
}


class _Ops(object):
  __array_priority__ = 10**6

  def __array_ufunc__(self, ufunc, method, *inputs, **kw):
    if method != '__call__' or kw:
      raise Unsupported('ufunc %s.%s' % (ufunc.__name__, method))
    n = ufunc.__name__
    use('np.' + n)
    if n in _UFUNC:
      a, b = inputs
      if isinstance(a, _Ops):
        return a._bin(_UFUNC[n], b)
      return b._bin(_UFUNC[n], a, True)
    if n == 'square':
      return inputs[0] * inputs[0]
    m = {'sqrt': 'sqrt', 'negative': 'neg', 'absolute': 'abs', 'log': 'log',
         'exp': 'exp', 'isnan': 'isnull', 'invert': 'not',
         'logical_not': 'not', 'floor': 'floor', 'ceil': 'ceil'}.get(n)
    if m is None:
      raise Unsupported('ufunc %s' % n)
    return inputs[0]._un(m)

  def __array_function__(self, func, types, args, kwargs):
    raise Unsupported('numpy function %s' % func.__name__)

  def __array__(self, *a, **k):
    raise Unsupported('conversion to numpy array')

  def __add__(self, o):
    return self._bin('add', o)

  def __radd__(self, o):
    return self._bin('add', o, True)

  def __sub__(self, o):
    return self._bin('sub', o)

  def __rsub__(self, o):
    return self._bin('sub', o, True)

  def __mul__(self, o):
    return self._bin('mul', o)

  def __rmul__(self, o):
    return self._bin('mul', o, True)

  def __truediv__(self, o):
    return self._bin('div', o)

  def __rtruediv__(self, o):
    return self._bin('div', o, True)

  def __pow__(self, o):
    return self._bin('pow', o)

  def __rpow__(self, o):
    return self._bin('pow', o, True)

  def __lt__(self, o):
    return self._bin('lt', o)

  def __le__(self, o):
    return self._bin('le', o)

  def __gt__(self, o):
    return self._bin('gt', o)

  def __ge__(self, o):
    return self._bin('ge', o)

  def __eq__(self, o):
    return self._bin('eq', o)

  def __ne__(self, o):
    return self._bin('ne', o)

  def __and__(self, o):
    return self._bin('and', o)

  def __rand__(self, o):
    return self._bin('and', o, True)

  def __or__(self, o):
    return self._bin('or', o)

  def __ror__(self, o):
    return self._bin('or', o, True)

  def __invert__(self):
    return self._un('not')

  def __neg__(self):
    return self._un('neg')

  def __abs__(self):
    return self._un('abs')

  __hash__ = object.__hash__


TOKENS = []


def numbers_in(text):
  """(text with # for the numbers, [(number, format)])."""
  import re
  found = []

  def sub(m):
    found.append((TOKENS[int(m.group(1))], m.group(2)))
    return '#'
  return re.sub('\x01(\\d+):([^\x02]*)\x02', sub, text), found


class SymNum(_Ops):
  """A symbolic float (possibly NaN)."""

  def __init__(self, cell):
    self.cell = cell

  def _bin(self, op, o, rev=False):
    if isinstance(o, (Series, DataFrame)):
      return o._bin(op, self, not rev)
    if not is_scalar(o):
      return NotImplemented
    a, b = self.cell, lift(o)
    if rev:
      a, b = b, a
    r = cell_op(op, a, b)
    return SymBool(r.val) if r.val.sort == 'B' else SymNum(r)

  def _un(self, f):
    r = cell_fn(f, self.cell)
    return SymBool(r.val) if r.val.sort == 'B' else SymNum(r)

  def sqrt(self):
    return self._un('sqrt')

  def __bool__(self):
    c = self.cell
    return symctx.CTX.branch(T.or_(c.null, T.neg(T.eq(c.val, T.ZERO))))

  def __float__(self):
    raise Unsupported('float() of a symbolic number')

  def __format__(self, spec):
    """A mark that stands for the formatted number; see numbers_in."""
    if not spec:
      raise Unsupported('unformatted symbolic number')
    for i, t in enumerate(TOKENS):
      if t is self:
        break
    else:
      i = len(TOKENS)
      TOKENS.append(self)
    return '\x01%d:%s\x02' % (i, spec)

  def __int__(self):
    raise Unsupported('int() of a symbolic number')

  def __deepcopy__(self, memo):
    return self

  def __repr__(self):
    return 'SymNum(%r)' % (self.cell,)

  __hash__ = object.__hash__


class SymBool(object):

  def __init__(self, term):
    self.term = term

  def __bool__(self):
    return symctx.CTX.branch(self.term)

  def __and__(self, o):
    return SymBool(T.and_(self.term, lift(o).val))

  def __or__(self, o):
    return SymBool(T.or_(self.term, lift(o).val))

  def __invert__(self):
    return SymBool(T.neg(self.term))

  def __eq__(self, o):
    return SymBool(T.eq(self.term, lift(o).val))

  def any(self, *a):
    return self

  def all(self, *a):
    return self

  __hash__ = object.__hash__


class SymKey(object):
  """A symbolic key label (an element of a group/unit column)."""

  def __init__(self, term):
    self.term = term

  def __eq__(self, o):
    if not is_scalar(o):
      return False
    return SymBool(T.eq(self.term, lift(o).val))

  def __ne__(self, o):
    if not is_scalar(o):
      return True
    return SymBool(T.neg(T.eq(self.term, lift(o).val)))

  def __hash__(self):
    return hash(('SymKey', self.term.id))

  def __lt__(self, o):
    return SymBool(T.lt(self.term, lift(o).val))

  def __gt__(self, o):
    return SymBool(T.lt(lift(o).val, self.term))

  def __deepcopy__(self, memo):
    return self

  def __repr__(self):
    return 'SymKey(%s)' % self.term


def key_term(v):
  """Python label -> index term."""
  if isinstance(v, SymKey):
    return v.term
  if isinstance(v, SymNum):
    return v.cell.val
  if isinstance(v, T.Term):
    return v
  if isinstance(v, _np.generic):
    v = v.item()
  try:
    hash(v)
  except TypeError:
    raise Unsupported('unhashable label')
  return T.klit(v)


def key_value(t):
  """Index term -> python label."""
  if t.op == 'klit':
    return t.args[0]
  if t.op == 'num':
    return T._pynum(t)
  if t.sort == 'R':
    return SymNum(Cell(T.FALSE, t))
  return SymKey(t)


# ------------------------------------------------------------------ blocks
class Block(object):
  __slots__ = ('vars', 'cond', 'idx', 'cells', 'mult')

  def __init__(self, vars_, cond, idx, cells, mult=None):
    self.vars = tuple(vars_)
    self.cond = cond
    self.idx = list(idx)
    self.cells = list(cells)
    self.mult = mult if mult is not None else T.ONE

  def copy(self):
    return Block(self.vars, self.cond, self.idx, self.cells, self.mult)

  def subst(self, m):
    return Block([m.get(v, v) for v in self.vars], T.subst(self.cond, m),
                 [T.subst(i, m) for i in self.idx],
                 [c.subst(m) for c in self.cells], T.subst(self.mult, m))

  def fresh(self):
    m = {v: T.fresh('v', v.sort) for v in self.vars}
    return self.subst(m)

  def restrict(self, extra):
    """Adds a condition, eliminating variables fixed by equalities."""
    b = Block(self.vars, T.and_(self.cond, extra), self.idx, self.cells,
              self.mult)
    return b.eliminate()

  def eliminate(self):
    b = self
    while True:
      op = T._one_point([v for v in b.vars if v.sort != 'W'], b.cond)
      if op is None:
        return b
      v, t = op
      m = {v: t}
      b = Block([x for x in b.vars if x is not v], T.subst(b.cond, m),
                [T.subst(i, m) for i in b.idx], [c.subst(m) for c in b.cells],
                T.subst(b.mult, m))

  def keyform(self):
    """idx is constants and distinct own variables covering all variables."""
    seen = []
    for i in self.idx:
      if i in self.vars:
        seen.append(i)
      elif i.op == 'app' and i.args[0] == 'rid':
        for a in i.args[1:]:
          if a in self.vars and a not in seen:
            seen.append(a)
    return set(self.vars) <= set(seen)


class _Unique(object):
  pass


def length(x):
  """len(), of a table or index also where it is symbolic."""
  f = x._frame if isinstance(x, Index) else x
  if isinstance(x, _GenDict):
    f = x._gb.first() if isinstance(x._gb._f, DataFrame) else None
  if isinstance(f, _Base) and any(
      b.vars or b.cond is not T.TRUE for b in f._blocks):
    use('len')
    return SymNum(Cell(T.FALSE, T.add(*[
        T.agg('sum', b.vars, b.cond, b.mult) if b.vars else
        T.ite(b.cond, b.mult, T.ZERO) for b in f._blocks])))
  return len(x)


# ------------------------------------------------------------------ draws
def _draw_map(b, keep, name):
  """Own variables of a block -> the ones of the drawn row."""
  kept = set()
  for t in keep:
    if t.op == 'var':
      kept.add(t)
  vs = [v for v in b.vars if v not in kept]
  return {v: T.app('%s:%d' % (name, j), tuple(b.vars), v.sort)
          for j, v in enumerate(vs)}


def drawn(f, i, by=(), how=''):
  """Contract of sample(frac=1, replace=True): as many rows as the group has,
  each an arbitrary row of that group."""
  use('sample' + how)
  out = []
  if len(f._blocks) != 1:
    raise Unsupported('sample of several blocks')
  for b in f._blocks:
    b = b.fresh()
    if b.mult is not T.ONE:
      raise Unsupported('sample with multiplicities')
    keyc = [f._columns.index(k) for k in by if k in f._columns] if isinstance(
        f, DataFrame) else []
    keyi = [n for n, k in enumerate(f._names) if k is not None and k in by]
    if len(keyc) + len(keyi) != len(by):
      raise KeyError(str(by))
    m = _draw_map(b, [b.cells[n].val for n in keyc] +
                  [b.idx[n] for n in keyi], 'draw%d%s' % (i, how))
    if symctx.CTX is not None and b.cond is not T.TRUE:
      ax = T.neg(T.exists(b.vars, T.and_(b.cond, T.neg(T.subst(b.cond, m)))))
      if ax not in symctx.CTX.path:
        symctx.CTX.path.append(ax)
    out.append(Block(b.vars, b.cond,
                     [x if n in keyi else T.subst(x, m)
                      for n, x in enumerate(b.idx)],
                     [c if n in keyc else c.subst(m)
                      for n, c in enumerate(b.cells)]))
  r = f._copy()
  r._blocks = out
  return r


def drawn_units(f, i, unit, by=()):
  """All rows of the units drawn: one draw among the units of a slice for
  each unit of the slice."""
  names = list(by) + [unit]
  u = drawn(f.groupby(names).first(), i, by)
  return f.set_index(names).loc[u.index].reset_index()


def copies(f, i):
  """Contract of Poisson weights: any number of copies of every row."""
  use('random.poisson')
  out = []
  for b in f._blocks:
    b = b.fresh()
    j = T.fresh('copy', 'W')
    out.append(Block(list(b.vars) + [j], T.and_(
        b.cond, T.app('copy%d' % i, tuple(b.vars) + (j,), 'B')), [
            T._mk('app', ('rid',) + tuple(b.vars) + (j,), 'W')], b.cells,
                     b.mult))
  if symctx.CTX is not None:  # the weights are not all 0
    ax = T.or_(*[T.exists(b.vars, b.cond) for b in out])
    if ax not in symctx.CTX.path:
      symctx.CTX.path.append(ax)
  r = f._copy()
  r._blocks = out
  return r


class Copies(object):
  """Positions of all rows, each repeated by the i-th weights."""

  def __init__(self, n, i):
    self.n, self.i = n, i

  def of(self, f):
    if f.sym_len() is not self.n:
      raise Unsupported('weights of another table')
    return copies(f, self.i)


class Weights(object):

  def __init__(self, n, i):
    self.n, self.i = n, i


class Arange(object):

  def __init__(self, n):
    self.n = n

  def repeat(self, w):
    if not isinstance(w, Weights) or w.n is not self.n:
      raise Unsupported('repeat')
    return Copies(self.n, w.i)


class Random(object):
  """numpy.random: Poisson weights are draws, the rest is out of reach."""

  def poisson(self, lam=1.0, size=None):
    from engine import draws
    if lam != 1 or not isinstance(size, SymNum):
      raise Unsupported('poisson options')
    return Weights(size.cell.val, draws.next_draw())

  def __getattr__(self, n):
    raise Unsupported('random.%s' % n)


class Numpy(object):
  """numpy with random numbers and symbolic lengths under contract."""
  random = Random()

  def arange(self, n, *a, **k):
    return Arange(n.cell.val) if isinstance(n, SymNum) else _np.arange(
        n, *a, **k)

  def __getattr__(self, n):
    return getattr(_np, n)


def sample(f, by, n=None, frac=None, replace=False, **k):
  from engine import draws
  if n is not None or k:
    raise Unsupported('sample options')
  return drawn(f, draws.next_draw(), by,
               '' if frac == 1 and replace else '/%s/%s' % (frac, replace))


def names_of(n):
  return [n] if isinstance(n, str) or not isinstance(n, (list, tuple)) else list(
      n)


# ------------------------------------------------------------------ Index
class Index(_Ops):
  """A row index (symbolic) or a label index (concrete)."""

  def __new__(cls, data=None, name=None, names=None, **kw):
    if cls is Index and isinstance(data, Index):
      return data
    return object.__new__(cls)

  def __init__(self, data=None, name=None, frame=None, names=None, **kw):
    if isinstance(data, Index) and frame is None:
      return
    self._frame = frame
    self._labels = None
    if frame is None:
      self._labels = list(data) if data is not None else []
      self._names = [name] if names is None else list(names)

  # concrete label index
  @property
  def is_concrete(self):
    return self._frame is None

  def labels(self):
    if self._frame is None:
      return self._labels
    f = self._frame
    out = []
    for b in f._blocks:
      if b.vars or b.cond is not T.TRUE:
        raise Unsupported('enumeration of symbolic index')
      v = tuple(key_value(i) for i in b.idx)
      out.append(v[0] if len(f._names) == 1 else v)
    return out

  @property
  def names(self):
    return _Names(self)

  @names.setter
  def names(self, v):
    self._setnames(list(v))

  def _getnames(self):
    return self._frame._names if self._frame is not None else self._names

  def _setnames(self, v):
    if self._frame is not None:
      self._frame._names = list(v)
    else:
      self._names = list(v)

  @property
  def name(self):
    n = self._getnames()
    return n[0] if len(n) == 1 else None

  @name.setter
  def name(self, v):
    self._setnames([v])

  @property
  def nlevels(self):
    return len(self._getnames())

  def set_names(self, names, level=None, inplace=False):
    cur = list(self._getnames())
    if level is None:
      new = names_of(names)
    else:
      new = list(cur)
      for l, n in zip(names_of(level), names_of(names)):
        new[_level_pos(cur, l)] = n
    if inplace:
      self._setnames(new)
      return None
    r = self.copy()
    r._setnames(new)
    return r

  rename = set_names

  def copy(self):
    if self._frame is not None:
      return _make_index(self._frame._copy())
    return type(self)(list(self._labels), names=list(self._names))

  def __len__(self):
    return len(self.labels())

  def __iter__(self):
    f = self._frame
    if f is not None and len(f._names) == 1 and any(
        b.vars or b.cond is not T.TRUE for b in f._blocks):
      return self._generic()
    return iter(self.labels())

  def _generic(self):
    """A loop over a symbolic set of labels visits two generic ones."""
    f = self._frame
    present = lambda ks: T.or_(*[
        T.exists(b.vars, T.and_(b.cond, T.eq(b.idx[0], ks[0])))
        for b in (x.fresh() for x in f._blocks)])
    own = GenGroup(present, [f._blocks[0].idx[0].sort])
    for k in own.visit():
      yield k[0]

  def __getitem__(self, k):
    if self._frame is not None and not isinstance(k, (int, slice)):
      raise Unsupported('index getitem')
    l = self.labels()
    if isinstance(k, slice):
      return Index(l[k], names=list(self._getnames()))
    return l[k]

  def __contains__(self, v):
    if self._frame is None:
      return v in self._labels
    ts = [key_term(x) for x in (v if isinstance(v, tuple) and
                                self.nlevels > 1 else (v,))]
    conds = []
    for b in self._frame._blocks:
      conds.append(T.exists(b.vars, T.and_(b.cond, *[
          T.eq(i, t) for i, t in zip(b.idx, ts)])))
    return symctx.CTX.branch(T.or_(*conds))

  def tolist(self):
    return list(self.labels())

  to_list = tolist

  @property
  def values(self):
    return self.labels()

  @property
  def empty(self):
    return self._frame.empty

  def get_level_values(self, level):
    pos = _level_pos(self._getnames(), level)
    if self._frame is None:
      return Index([l[pos] if isinstance(l, tuple) else l
                    for l in self._labels], name=self._names[pos])
    f = self._frame
    g = _Frame0(f._blocks_with_idx([pos]), [f._names[pos]])
    return _make_index(g)

  def unique(self, level=None):
    use('Index.unique')
    x = self if level is None else self.get_level_values(level)
    try:
      lab = x.labels()
    except Unsupported:
      f = x._frame
      if all(len(b.idx) == 1 and b.idx[0].op == 'klit' for b in f._blocks):
        # constant labels (metric names): present whenever any row is
        lab = [b.idx[0].args[0] for b in f._blocks]
      else:
        blocks = _group_blocks(f._blocks, [lambda b, i=i: b.idx[i]
                                           for i in range(len(f._names))])
        return _make_index(_Frame0(blocks, list(f._names)))
    out = []
    for l in lab:
      if l not in out:
        out.append(l)
    return Index(out, names=list(x._getnames())) if x.nlevels == 1 else \
        MultiIndex(out, names=list(x._getnames()))

  drop_duplicates = unique

  @property
  def levels(self):
    return [_Level(self, i) for i in range(self.nlevels)]

  def droplevel(self, level):
    names = self._getnames()
    drop = [_level_pos(names, l) for l in names_of(level)]
    keep = [i for i in range(len(names)) if i not in drop]
    if self._frame is None:
      labs = [tuple(l[i] for i in keep) for l in self._labels]
      if len(keep) == 1:
        return Index([l[0] for l in labs], name=names[keep[0]])
      return MultiIndex(labs, names=[names[i] for i in keep])
    f = self._frame
    return _make_index(
        _Frame0(f._blocks_with_idx(keep), [names[i] for i in keep], True))

  def duplicated(self, keep='first'):
    use('Index.duplicated')
    if keep != 'first' or self._frame is not None:
      raise Unsupported('Index.duplicated of symbolic labels')
    l = self.labels()
    return _np.array([x in l[:i] for i, x in enumerate(l)], dtype=bool)

  def isin(self, vals, level=None):
    use('Index.isin')
    if self._frame is None:
      vals = list(vals)
      return _np.array([l in vals for l in self._labels])
    pos = None
    f = self._frame
    if level is not None:
      pos = [_level_pos(f._names, level)]
    else:
      pos = list(range(len(f._names)))
    if isinstance(vals, Index) and vals._frame is not None:
      g = vals._frame

      def cond(b):
        return T.or_(*[
            T.exists(c.vars, T.and_(c.cond, *[
                T.eq(b.idx[p], i) for p, i in zip(pos, c.idx)]))
            for c in (x.fresh() for x in g._blocks)])
    else:
      vs = list(vals)

      def cond(b):
        alts = []
        for v in vs:
          ts = [key_term(x) for x in (v if len(pos) > 1 else (v,))]
          alts.append(T.and_(*[T.eq(b.idx[p], t) for p, t in zip(pos, ts)]))
        return T.or_(*alts)

    return Mask([(b, cond(b)) for b in f._blocks])

  def to_frame(self, **kw):
    raise Unsupported('Index.to_frame')

  def set_levels(self, levels, level=None, **kw):
    use('MultiIndex.set_levels')
    pos = _level_pos(self._getnames(), level)
    new = list(levels)
    old = _Level(self, pos).uniq()
    m = dict(zip(old, new))
    if self._frame is None:
      labs = []
      for l in self._labels:
        l = list(l)
        l[pos] = m[l[pos]]
        labs.append(tuple(l))
      return MultiIndex(labs, names=list(self._names))
    blocks = []
    for b in self._frame._blocks:
      i = b.idx[pos]
      if i.op != 'klit':
        raise Unsupported('set_levels on symbolic level')
      nb = b.copy()
      nb.idx[pos] = T.klit(m[i.args[0]])
      blocks.append(nb)
    return _make_index(_Frame0(blocks, list(self._frame._names)))

  def _bin(self, op, o, rev=False):
    if self._frame is not None:
      if len(self._frame._names) != 1 or not is_scalar(o):
        raise Unsupported('index comparison')
      t = lift(o)
      return Mask([(b, cell_op(op, Cell(T.FALSE, b.idx[0]), t).val)
                   for b in self._frame._blocks])
    if op == 'eq':
      o = list(o) if not is_scalar(o) else [o] * len(self._labels)
      return _np.array([a == b for a, b in zip(self._labels, o)])
    if op == 'ne':
      o = list(o) if not is_scalar(o) else [o] * len(self._labels)
      return _np.array([a != b for a, b in zip(self._labels, o)])
    raise Unsupported('index op')

  def __getattr__(self, n):
    if n.startswith('_'):
      raise AttributeError(n)
    raise Unsupported('Index.%s' % n)

  def __repr__(self):
    return 'Index(%s)' % (self._labels if self._frame is None else self._frame)

  __hash__ = object.__hash__


class MultiIndex(Index):

  @classmethod
  def from_tuples(cls, tuples, names=None):
    use('MultiIndex.from_tuples')
    tuples = list(tuples)
    n = len(tuples[0])
    return cls(tuples, names=list(names) if names else [None] * n)

  @classmethod
  def from_frame(cls, *a, **k):
    raise Unsupported('MultiIndex.from_frame')


def _make_index(frame0):
  if len(frame0._names) == 1:
    return Index(frame=frame0)
  m = MultiIndex.__new__(MultiIndex)
  m.__init__(frame=frame0)
  return m


class _Level(object):

  def __init__(self, index, pos):
    self._i, self._p = index, pos

  @property
  def name(self):
    return self._i._getnames()[self._p]

  def uniq(self):
    if self._i._frame is None:
      out = []
      for l in self._i._labels:
        v = l[self._p] if isinstance(l, tuple) else l
        if v not in out:
          out.append(v)
      return out
    out = []
    for b in self._i._frame._blocks:
      t = b.idx[self._p]
      if t.op not in ('klit',):
        raise Unsupported('values of symbolic index level')
      if t.args[0] not in out:
        out.append(t.args[0])
    return out

  @property
  def values(self):
    return self.uniq()

  def __iter__(self):
    return iter(self.uniq())

  def __len__(self):
    return len(self.uniq())


class _Names(list):

  def __init__(self, index):
    list.__init__(self, index._getnames())
    self._index = index

  def __getitem__(self, k):
    return list(self)[k]

  def __setitem__(self, k, v):
    l = list(self)
    l[k] = v
    self._index._setnames(l)

  def difference(self, other):
    other = list(other)
    return sorted([n for n in self if n not in other], key=str)


def _level_pos(names, level):
  if level in names:
    return list(names).index(level)
  if isinstance(level, int):
    return level if level >= 0 else len(names) + level
  raise KeyError('Level %s not found' % (level,))


class Mask(object):
  """Boolean array aligned by position with the rows of a frame."""

  def __init__(self, items):
    self.items = items

  def __invert__(self):
    return Mask([(b, T.neg(c)) for b, c in self.items])

  def __and__(self, o):
    return Mask([(b, T.and_(c, o.cond_for(b))) for b, c in self.items])

  def __or__(self, o):
    return Mask([(b, T.or_(c, o.cond_for(b))) for b, c in self.items])

  def cond_for(self, block, pos=None):
    if pos is not None and pos < len(self.items):
      b, c = self.items[pos]
      if b.vars == block.vars:
        return c
    for b, c in self.items:
      if b.vars == block.vars and b.cond is block.cond:
        return c
    raise Unsupported('mask from a different frame')

  def any(self):
    return SymBool(T.or_(*[T.exists(b.vars, T.and_(b.cond, c))
                           for b, c in self.items]))

  def all(self):
    return SymBool(T.neg(T.or_(*[T.exists(b.vars, T.and_(b.cond, T.neg(c)))
                                 for b, c in self.items])))


# ------------------------------------------------------------------ frames
class _Base(object):
  """Shared by Frame0/Series/DataFrame: _blocks, _names."""

  def _blocks_with_idx(self, pos):
    out = []
    for b in self._blocks:
      nb = b.copy()
      nb.idx = [b.idx[p] for p in pos]
      out.append(nb)
    return out


class _Frame0(_Base):
  """Index-only carrier."""

  def __init__(self, blocks, names, raw=False):
    self._blocks, self._names = blocks, names

  def _copy(self):
    return _Frame0([b.copy() for b in self._blocks], list(self._names))

  @property
  def empty(self):
    return SymBool(T.neg(T.or_(*[T.exists(b.vars, b.cond)
                                 for b in self._blocks])))


def _group_blocks(blocks, keyfns, extra=None):
  """Index-only grouping: distinct key tuples."""
  n = len(keyfns)
  sorts = None
  fresh = None
  cond = T.FALSE
  consts = []
  sigs = {}
  order = []
  for b in blocks:
    ks = [k(b) for k in keyfns]
    sig = tuple(k if k.op == 'klit' else None for k in ks)
    if sig not in sigs:
      sigs[sig] = [s if s is not None else T.fresh('g', k.sort)
                   for s, k in zip(sig, ks)]
      order.append((sig, []))
    for s, l in order:
      if s == sig:
        l.append((b, ks))
  out = []
  for sig, items in order:
    kv = sigs[sig]
    conds = []
    for b, ks in items:
      conds.append(T.exists(b.vars, T.and_(b.cond, *[
          T.eq(k, v) for k, v in zip(ks, kv) if v is not k])))
    out.append(Block([v for v in kv if v.op == 'var' and v.args[0].startswith(
        'g!')], T.or_(*conds), kv, []))
  return out


def unify(a, b, avars, bvars):
  """Unifies two index tuples. Returns substitution or None if disjoint."""
  m = {}
  for x, y in zip(a, b):
    x, y = T.subst(x, m), T.subst(y, m)
    if x is y:
      continue
    if y in bvars and y.op == 'var':
      step = {y: x}
    elif x in avars and x.op == 'var':
      step = {x: y}
    elif x.op == 'klit' and y.op == 'klit':
      return None
    elif x.op == 'app' and y.op == 'app' and x.args[0] == 'rid' == y.args[0]:
      mm = unify(x.args[1:], y.args[1:], avars, bvars)
      if mm is None:
        return None
      step = mm
    else:
      raise Unsupported('cannot unify index terms %s / %s' % (x, y))
    m = {k: T.subst(v, step) for k, v in m.items()}
    m.update(step)
  return m


def outer_align(f1, f2, how='outer'):
  """Aligns two frames with the same index levels on equal index.

  Yields blocks (vars, cond, idx, cells1, cells2) with NaN where absent.
  """
  if len(f1._blocks) == len(f2._blocks) and all(
      p.vars == q.vars and p.idx == q.idx and p.cond is q.cond and
      p.mult is q.mult for p, q in zip(f1._blocks, f2._blocks)):
    return [(p.vars, p.cond, p.idx, p.cells, q.cells, p.mult)
            for p, q in zip(f1._blocks, f2._blocks)]
  out = []
  matched1 = {}
  matched2 = {}
  bl2 = []
  for q in f2._blocks:
    bl2.append(q)
  for i, p in enumerate(f1._blocks):
    if not p.keyform() or p.mult is not T.ONE:
      raise Unsupported('alignment on a non-unique index')
    for j, q0 in enumerate(bl2):
      if not q0.keyform() or q0.mult is not T.ONE:
        raise Unsupported('alignment on a non-unique index')
      if any(x.sort != y.sort for x, y in zip(p.idx, q0.idx)
             if x.op != 'klit' and y.op != 'klit'):
        raise Unsupported('alignment of different index kinds')
      q = q0.fresh()
      m = unify(p.idx, q.idx, p.vars, q.vars)
      if m is None:
        continue
      pure = (set(m) <= set(q.vars) and len(set(m.values())) == len(m) and
              all(v in p.vars for v in m.values()) and len(m) == len(q.vars) and
              len(q.vars) == len(p.vars))
      qq = q.subst(m) if pure else None
      if pure:
        if how == 'outer':
          cond = T.or_(p.cond, qq.cond)
        elif how == 'left':
          cond = p.cond
        elif how == 'right':
          cond = qq.cond
        else:
          cond = T.and_(p.cond, qq.cond)
        mk = lambda c, pc: c if pc is cond else Cell(
            T.or_(T.neg(pc), c.null), c.val)
        out.append((p.vars, cond, p.idx, [mk(c, p.cond) for c in p.cells],
                    [mk(c, qq.cond) for c in qq.cells], T.ONE))
        matched1[i] = 'all'
        matched2[j] = 'all'
      else:
        pp = p.subst(m)
        qq = q.subst(m)
        vs = []
        for v in list(p.vars) + list(q.vars):
          if v not in m and v not in vs:
            vs.append(v)
        out.append((tuple(vs), T.and_(pp.cond, qq.cond), pp.idx, pp.cells,
                    qq.cells, T.ONE))
        matched1.setdefault(i, []).append(q0)
        matched2.setdefault(j, []).append(p)
  n1 = len(f1._blocks[0].cells) if f1._blocks else 0
  n2 = len(f2._blocks[0].cells) if f2._blocks else 0
  if how in ('outer', 'left'):
    for i, p in enumerate(f1._blocks):
      ms = matched1.get(i, [])
      if ms == 'all':
        continue
      cond = p.cond
      for q0 in ms:
        q = q0.fresh()
        cond = T.and_(cond, T.neg(T.exists(q.vars, T.and_(q.cond, *[
            T.eq(a, b) for a, b in zip(p.idx, q.idx)]))))
      out.append((p.vars, cond, p.idx, p.cells, [NAN] * n2, p.mult))
  if how in ('outer', 'right'):
    for j, q in enumerate(f2._blocks):
      ms = matched2.get(j, [])
      if ms == 'all':
        continue
      cond = q.cond
      for p0 in ms:
        p = p0.fresh()
        cond = T.and_(cond, T.neg(T.exists(p.vars, T.and_(p.cond, *[
            T.eq(a, b) for a, b in zip(p.idx, q.idx)]))))
      out.append((q.vars, cond, q.idx, [NAN] * n1, q.cells, q.mult))
  return out


def level_align(big, small):
  """Left join of big's rows with small on the shared (named) levels."""
  pos = [_level_pos(big._names, n) for n in small._names]
  out = []
  for p in big._blocks:
    cells2 = None
    found = []
    for q0 in small._blocks:
      q = q0.fresh()
      if not q.keyform():
        raise Unsupported('level alignment on non-unique index')
      m = unify([p.idx[x] for x in pos], q.idx, (), q.vars)
      if m is None:
        continue
      if not set(q.vars) <= set(m):
        raise Unsupported('level alignment')
      found.append(q.subst(m))
    if len(found) > 1:
      raise Unsupported('ambiguous level alignment')
    if not found:
      cells2 = [NAN] * len(small._blocks[0].cells)
    else:
      q = found[0]
      cells2 = [Cell(T.or_(T.neg(q.cond), c.null), c.val) for c in q.cells]
    out.append((p.vars, p.cond, p.idx, p.cells, cells2, p.mult))
  return out


def align(f1, f2, how='outer'):
  """Returns (names, blocks) aligned on index."""
  n1, n2 = f1._names, f2._names
  if len(n1) == len(n2) and (n1 == n2 or len(n1) == 1):
    names = n1 if n1 == n2 else [None]
    return list(names), outer_align(f1, f2, how)
  if set(n1) == set(n2) and None not in n1:
    f2 = f2.reorder_levels(n1)
    return list(n1), outer_align(f1, f2, how)
  if set(n2) < set(n1) and None not in n2:
    return list(n1), level_align(f1, f2)
  if set(n1) < set(n2) and None not in n1:
    return list(n2), [(v, c, i, c2, c1, m)
                      for v, c, i, c1, c2, m in level_align(f2, f1)]
  raise Unsupported('alignment of index %s with %s' % (n1, n2))


class _Rows(_Base, _Ops):
  """Common row operations for Series and DataFrame."""

  _probe = ('meterstick_change_base', 'compute_on', 'children', '_is_copy',
            'dtype', 'fillna_')

  @property
  def index(self):
    return _make_index(self)

  @index.setter
  def index(self, v):
    if isinstance(v, Index) and v._frame is not None:
      if len(v._frame._blocks) != len(self._blocks):
        raise Unsupported('set index')
      for b, c in zip(self._blocks, v._frame._blocks):
        if b.vars != c.vars:
          raise Unsupported('set index')
      self._blocks = [Block(b.vars, b.cond, c.idx, b.cells, b.mult)
                      for b, c in zip(self._blocks, v._frame._blocks)]
      self._names = list(v._frame._names)
      return
    labs = list(v)
    names = list(v._names) if isinstance(v, Index) else [None]
    if len(labs) != len(self._blocks) or any(b.vars for b in self._blocks):
      raise Unsupported('set index')
    nb = []
    for b, l in zip(self._blocks, labs):
      b = b.copy()
      b.idx = [key_term(x) for x in (l if isinstance(l, tuple) and
                                     len(names) > 1 else (l,))]
      nb.append(b)
    self._blocks, self._names = nb, names

  @property
  def empty(self):
    use('empty')
    if not getattr(self, '_columns', True):
      return True
    return SymBool(T.neg(T.or_(*[T.exists(b.vars, b.cond)
                                 for b in self._blocks])))

  def __len__(self):
    if all(not b.vars and b.cond is T.TRUE for b in self._blocks):
      return len(self._blocks)
    raise Unsupported('len() of a symbolic frame')

  def sym_len(self):
    return T.add(*[T.agg('sum', b.vars, b.cond, b.mult) if b.vars else
                   T.ite(b.cond, T.ONE, T.ZERO) for b in self._blocks])

  @property
  def shape(self):
    n = SymNum(Cell(T.FALSE, self.sym_len()))
    try:
      n = len(self)
    except Unsupported:
      pass
    return (n, len(self._columns)) if isinstance(self, DataFrame) else (n,)

  def _with(self, blocks, names=None):
    raise NotImplementedError

  def _filter(self, condfn):
    return self._with([b.restrict(condfn(b, i))
                       for i, b in enumerate(self._blocks)])

  def droplevel(self, level, axis=0):
    use('droplevel')
    if axis in (1, 'columns'):
      ix = self.columns.droplevel(level)
      r = self.copy()
      r.columns = ix
      return r
    names = self._names
    drop = [_level_pos(names, l) for l in names_of(level)]
    if not drop:
      return self.copy()
    keep = [i for i in range(len(names)) if i not in drop]
    return self._with(self._blocks_with_idx(keep), [names[i] for i in keep])

  def reorder_levels(self, order, axis=0):
    use('reorder_levels')
    pos = [_level_pos(self._names, l) for l in order]
    if sorted(pos) != list(range(len(self._names))):
      raise Unsupported('reorder_levels')
    return self._with(self._blocks_with_idx(pos), [self._names[p] for p in pos])

  def swaplevel(self, i=-2, j=-1):
    n = list(range(len(self._names)))
    i, j = _level_pos(self._names, i), _level_pos(self._names, j)
    n[i], n[j] = n[j], n[i]
    return self.reorder_levels(n)

  def xs(self, key, axis=0, level=None, drop_level=True):
    use('xs')
    names = self._names
    if level is None:
      key = key if isinstance(key, tuple) and len(names) > 1 else (key,)
      pos = list(range(len(key)))
    else:
      pos = [_level_pos(names, l) for l in names_of(level)]
      key = key if isinstance(key, tuple) and len(pos) > 1 else (key,)
    if len(key) != len(pos):
      raise Unsupported('xs key')
    conds = [T.exists(b.vars, T.and_(b.cond, *[
        T.eq(b.idx[p], key_term(k)) for p, k in zip(pos, key)]))
             for b in self._blocks]
    if not symctx.CTX.branch(T.or_(*conds)):
      raise KeyError(key if len(key) > 1 else key[0])
    blocks = []
    for b in self._blocks:
      c = T.and_(*[T.eq(b.idx[p], key_term(k)) for p, k in zip(pos, key)])
      if c is T.FALSE:
        continue
      nb = b.restrict(c)
      if nb.cond is T.FALSE:
        continue
      nb.idx = [x for i, x in enumerate(nb.idx) if i not in pos]
      blocks.append(nb)
    keep = [n for i, n in enumerate(names) if i not in pos]
    if keep:
      return self._with(blocks, keep)
    if len(blocks) != 1 or blocks[0].vars:
      raise Unsupported('xs result')
    return self._row(blocks[0], key[0] if len(key) == 1 else key)

  def _reindex_labels(self, labels, level, fill_value):
    labels = [l for l in labels]
    if len(set(labels)) != len(labels):
      raise ValueError('cannot reindex on an axis with duplicate labels')
    if level is None:
      if len(self._names) != 1:
        raise Unsupported('reindex on labels')
      p = 0
    else:
      p = _level_pos(self._names, level)
    out = []
    for l in labels:
      kt = key_term(l)
      hits = []
      for b in self._blocks:
        nb = b.restrict(T.eq(b.idx[p], kt))
        if nb.cond is not T.FALSE:
          hits.append(nb)
      if level is None:
        # every label gets a row; labels without data are null
        if any(h.vars for h in hits):
          raise Unsupported('reindex on a non-unique index')
        acc = [NAN if fill_value is None else lift(fill_value)] * len(
            self._blocks[0].cells)
        for q in hits:
          acc = [Cell(T.or_(T.and_(q.cond, c.null),
                            T.and_(T.neg(q.cond), d.null)),
                      T.ite(q.cond, c.val, d.val))
                 for c, d in zip(q.cells, acc)]
        out.append(Block((), T.TRUE, [kt], acc))
      else:
        out += hits
    if not out:
      raise Unsupported('reindex to nothing')
    r = self._with(out)
    return r._set_order(('list', p, labels))

  def reindex(self, index=None, level=None, fill_value=None, **kw):
    use('reindex')
    if not kw and index is not None and not isinstance(index, (
        Index, Series, DataFrame, SymKey)):
      return self._reindex_labels(index, level, fill_value)
    if kw or level is not None:
      raise Unsupported('reindex options')
    if not isinstance(index, Index) or index._frame is None:
      raise Unsupported('reindex on labels')
    f = index._frame
    target = _Frame0([Block(b.vars, b.cond, b.idx, [], b.mult)
                      for b in f._blocks], list(f._names))
    if list(f._names) != list(self._names):
      raise Unsupported('reindex level order')
    fv = None if fill_value is None else lift(fill_value)
    out = []
    for v, c, i, c1, c2, m in _left_join(target, self, fv):
      out.append(Block(v, c, i, c2, m))
    return self._with(out)

  def sort_index(self, *a, **k):
    use('sort_index')
    return self._inplace_or_new(k)

  def sort_values(self, by=None, *a, **k):
    use('sort_values')
    asc = k.get('ascending', True)
    if set(k) - {'ascending', 'inplace', 'kind', 'axis', 'na_position'}:
      raise Unsupported('sort_values options')
    if isinstance(self, Series):
      if by is not None:
        raise Unsupported('sort_values(by) of a series')
      order = ('cells', [0], bool(asc))
    elif a or not isinstance(asc, bool):
      order = None
    else:
      bys = names_of(by)
      if all(isinstance(x, str) and x in self._names and
             x not in self._columns for x in bys):
        order = ('levels', [self._names.index(x) for x in bys], asc)
      elif all(x in self._columns for x in bys):
        order = ('cells', [self._columns.index(x) for x in bys], asc)
      elif all((x in self._columns) != (isinstance(x, str) and
                                        x in self._names) for x in bys):
        order = ('mixed', [('lvl', self._names.index(x)) if x in self._names
                           else ('cell', self._columns.index(x)) for x in bys],
                 asc)
      else:
        raise KeyError(by)
    r = self if k.get('inplace') else self.copy()
    r._set_order(order)
    return None if k.get('inplace') else r

  def _snap(self):
    return [(b, tuple(b.cells), tuple(b.idx)) for b in self._blocks]

  def _set_order(self, o):
    self.__dict__['_roworder'] = (o, self._snap())
    return self

  def _get_order(self):
    """The current row order, if nothing has changed the frame since."""
    o = self.__dict__.get('_roworder')
    return o[0] if o is not None and o[1] == self._snap() else None

  def _order_le(self, b, c):
    """Condition: row of block b is not after the row of block c."""
    o = self._get_order()
    if o is None:
      raise Unsupported('row order is not determined')
    kind, pos, asc = o
    if kind == 'list':
      # position of the label in an explicit list
      p, labels = pos, asc
      ge = [(T.eq(b.idx[p], key_term(l)), T.eq(c.idx[p], key_term(m)))
            for i, l in enumerate(labels) for m in labels[i:]]
      return T.or_(*[T.and_(x, y) for x, y in ge])
    if kind == 'levels':
      xs = [(b.idx[p], c.idx[p]) for p in pos]
    elif kind == 'mixed':
      xs = [(b.idx[p], c.idx[p]) if k == 'lvl' else
            (b.cells[p].val, c.cells[p].val) for k, p in pos]
    else:
      xs = [(b.cells[p].val, c.cells[p].val) for p in pos]
    if not asc:
      xs = [(y, x) for x, y in xs]
    r = T.TRUE
    for x, y in reversed(xs):
      r = T.or_(T.lt(x, y), T.and_(T.eq(x, y), r))
    return r

  def _cumsum(self, same_group, grouped):
    """Running sums in the row order, per group.

    Contract: rows that agree on the ordering keys are not distinguished, so
    the keys together with the group must identify a row (levels), or the
    values must be pairwise distinct within a group (sorting by values).
    """
    o = self._get_order()
    if o is None:
      raise Unsupported('cumsum in an undetermined row order')
    if o[0] in ('levels', 'list'):
      have = set(o[1]) if o[0] == 'levels' else {o[1]}
      if have | set(grouped) != set(range_(len(self._names))):
        raise Unsupported('order does not identify the row')
    if not all(b.keyform() for b in self._blocks):
      raise Unsupported('cumsum on a non-unique index')
    out = []
    for b in self._blocks:
      cells = []
      for n, cell in enumerate(b.cells):
        parts = []
        for q in self._blocks:
          q = q.fresh()
          if cell_sort_ok(q.cells[n]) is False:
            raise Unsupported('cumsum of labels')
          parts.append((q.vars, T.and_(q.cond, T.neg(q.cells[n].null),
                                       same_group(q, b),
                                       self._order_le(q, b)),
                        _asnum(q.cells[n].val), q.mult))
        cells.append(Cell(cell.null, _sum_of(parts, lambda x: x)))
      out.append(Block(b.vars, b.cond, b.idx, cells, b.mult))
    return self._with(out)

  def _nlargest(self, n, same_group):
    """The rows with fewer than n larger values in their group.

    Contract: values are pairwise distinct within a group; missing values,
    which pandas keeps only if fewer than n others are there, add nothing to
    the sums taken of the result.
    """
    if not all(b.keyform() for b in self._blocks):
      raise Unsupported('nlargest on a non-unique index')
    out = []
    for b in self._blocks:
      parts = []
      for q in self._blocks:
        q = q.fresh()
        parts.append((q.vars, T.and_(
            q.cond, T.neg(q.cells[0].null), same_group(q, b),
            T.lt(b.cells[0].val, q.cells[0].val)), T.ONE, q.mult))
      few = T.lt(_sum_of(parts, lambda x: x), T.num(n))
      out.append(Block(b.vars, T.and_(b.cond, T.or_(b.cells[0].null, few)),
                       b.idx, b.cells, b.mult))
    return out

  def nlargest(self, n=5, **k):
    use('nlargest')
    if not isinstance(self, Series) or k or not isinstance(n, int):
      raise Unsupported('nlargest')
    return self._with(self._nlargest(n, lambda q, b: T.TRUE))

  def cumsum(self, axis=0, **k):
    use('cumsum')
    if axis not in (0, None, 'index') or k:
      raise Unsupported('cumsum options')
    return self._cumsum(lambda q, b: T.TRUE, [])

  def _inplace_or_new(self, k):
    if k.get('inplace'):
      return None
    return self.copy()

  def astype(self, t, *a, **k):
    use('astype')
    if t in (float, 'float', _np.float64, 'float64', 'Float64'):
      return self.copy()
    if t in (int, 'int'):
      return self._map(lambda c: c)
    raise Unsupported('astype %s' % (t,))

  def fillna(self, v=None, **k):
    use('fillna')
    if k.get('inplace'):
      raise Unsupported('fillna inplace')
    if not is_scalar(v):
      raise Unsupported('fillna')
    f = lift(v)
    return self._map(lambda c: Cell(T.FALSE, T.ite(c.null, f.val, c.val))
                     if f.null is T.FALSE else c)

  def isnull(self):
    return self._map(lambda c: cell_fn('isnull', c))

  isna = isnull

  def notnull(self):
    return self._map(lambda c: Cell(T.FALSE, T.neg(c.null)))

  notna = notnull

  def abs(self):
    return self._un('abs')

  def _un(self, f):
    return self._map(lambda c: cell_fn(f, c))

  def add(self, o, **k):
    return self._named_op('add', o, k)

  def sub(self, o, **k):
    return self._named_op('sub', o, k)

  subtract = sub

  def mul(self, o, **k):
    return self._named_op('mul', o, k)

  multiply = mul

  def div(self, o, **k):
    return self._named_op('div', o, k)

  divide = truediv = div

  def pow(self, o, **k):
    return self._named_op('pow', o, k)

  def _named_op(self, op, o, k):
    if k and set(k) - {'axis', 'level'}:
      raise Unsupported('%s options' % op)
    if isinstance(self, DataFrame) and isinstance(o, Series):
      ax = k.get('axis', 'columns')
      if ax in (0, 'index', 'rows'):
        return self._bin_rows(op, o)
    return self._bin(op, o)

  def groupby(self, by=None, level=None, observed=True, sort=True,
              group_keys=True, as_index=True, dropna=True, axis=0, **kw):
    use('groupby')
    if kw or axis not in (0,) or not as_index or not dropna:
      raise Unsupported('groupby options')
    return GroupBy(self, by, level, group_keys)

  def reset_index(self, level=None, drop=False, inplace=False, **kw):
    use('reset_index')
    if kw:
      raise Unsupported('reset_index options')
    names = self._names
    pos = list(range(len(names))) if level is None else [
        _level_pos(names, l) for l in names_of(level)]
    keep = [i for i in range(len(names)) if i not in pos]
    blocks = []
    for n, b in enumerate(self._blocks):
      nb = b.copy()
      if keep:
        nb.idx = [b.idx[i] for i in keep]
      elif not b.vars and len(self._blocks) == 1:
        nb.idx = [T.klit(0)]
      else:
        nb.idx = [T._mk('app', ('rid',) + tuple(b.vars) + (
            () if len(self._blocks) == 1 else (T.klit('#%d' % n),)), 'W')]
      if not drop:
        nb.cells = [Cell(T.FALSE, b.idx[i]) for i in pos] + nb.cells
      blocks.append(nb)
    newnames = [names[i] for i in keep] or [None]
    labels = []
    for i in pos:
      n = names[i]
      if n is None:
        n = 'index' if len(names) == 1 else 'level_%d' % i
      labels.append(n)
    if isinstance(self, Series):
      if drop:
        r = Series._make(blocks, newnames, self.name)
      else:
        r = DataFrame._make(blocks, newnames,
                            labels + [0 if self.name is None else self.name])
    else:
      cols = self._columns
      if not drop and isinstance(self.columns, MultiIndex):
        labels = [(l,) + ('',) * (self.columns.nlevels - 1) for l in labels]
      r = DataFrame._make(blocks, newnames,
                          (labels if not drop else []) + list(cols),
                          list(self._colnames))
    if inplace:
      self._assign(r)
      return None
    return r

  def sample(self, **k):
    return sample(self, [], **k)

  def head(self, n=5):
    raise Unsupported('head')

  def __getattr__(self, n):
    if n.startswith('__') or n in _Rows._probe or n.startswith('_'):
      raise AttributeError(n)
    if isinstance(self, DataFrame) and n in self.__dict__.get('_columns', ()):
      return self[n]
    raise Unsupported('%s.%s' % (type(self).__name__, n))

  def __deepcopy__(self, memo):
    return self.copy()

  def __copy__(self):
    return self.copy()

  def __bool__(self):
    raise ValueError('The truth value of a Series is ambiguous.')

  def copy(self, deep=True):
    r = self._copy()
    return r

  __hash__ = object.__hash__


def _left_join(target, f, fv):
  """outer_align(target, f, 'left') with fill value only for missing rows."""
  res = []
  for p in target._blocks:
    if not p.keyform():
      raise Unsupported('reindex with duplicate labels')
    cells = None
    acc = [NAN if fv is None else fv] * len(f._blocks[0].cells)
    for q0 in f._blocks:
      q = q0.fresh()
      if not q.keyform():
        raise Unsupported('reindex on a non-unique index')
      m = unify(p.idx, q.idx, (), q.vars)
      if m is None:
        continue
      if not set(q.vars) <= set(m):
        raise Unsupported('reindex')
      q = q.subst(m)
      nb = []
      for c, d in zip(q.cells, acc):
        nb.append(Cell(T.or_(T.and_(q.cond, c.null),
                             T.and_(T.neg(q.cond), d.null)),
                       T.ite(q.cond, c.val, d.val)))
      acc = nb
    res.append((p.vars, p.cond, p.idx, [], acc, p.mult))
  return res


class Transposed(object):
  """DataFrame(list of series), of which only .T is supported."""

  def __getattr__(self, name):
    if name == 'T':
      return self.__dict__['_transposed']
    raise Unsupported('DataFrame([symbolic series]).' + name)


class Series(_Rows):

  def __init__(self, data=None, index=None, name=None, dtype=None):
    if isinstance(data, Series):
      self._blocks = [b.copy() for b in data._blocks]
      self._names = list(data._names)
      self.name = name if name is not None else data.name
      if index is not None:
        raise Unsupported('Series(series, index)')
      return
    if isinstance(data, dict):
      index = list(data)
      data = [data[k] for k in index]
    if is_scalar(data):
      raise Unsupported('Series(scalar)')
    data = list(data)
    self.name = name
    names = [None]
    if index is None:
      labs = list(builtins.range(len(data)))
    elif isinstance(index, Index):
      if index._frame is not None:
        raise Unsupported('Series with symbolic index')
      labs, names = index._labels, list(index._names)
    else:
      labs = list(index)
    self._names = names
    gen = [l for l in labs if isinstance(l, GenKey) or (
        isinstance(l, tuple) and any(isinstance(x, GenKey) for x in l))]
    if gen:
      frames = []
      for d, l in zip(data, labs):
        t = l if isinstance(l, tuple) else (l,)
        frames.append((t, [Block((), T.TRUE, [], [lift(d)])]))
      self._blocks = bind_generic(frames)
      return
    self._blocks = []
    for d, l in zip(data, labs):
      ts = [key_term(x) for x in (l if isinstance(l, tuple) and len(names) > 1
                                  else (l,))]
      self._blocks.append(Block((), T.TRUE, ts, [lift(d)]))

  @classmethod
  def _make(cls, blocks, names, name):
    s = cls.__new__(cls)
    s._blocks, s._names, s.name = blocks, list(names), name
    return s

  def _copy(self):
    return Series._make([b.copy() for b in self._blocks], list(self._names),
                        self.name)

  def _assign(self, o):
    self._blocks, self._names, self.name = o._blocks, o._names, o.name

  def _with(self, blocks, names=None):
    return Series._make(blocks, self._names if names is None else names,
                        self.name)

  def _row(self, block, key):
    return SymNum(block.cells[0]) if block.cond is T.TRUE else SymNum(
        Cell(T.or_(T.neg(block.cond), block.cells[0].null),
             block.cells[0].val))

  def _map(self, fn):
    bl = []
    for b in self._blocks:
      nb = b.copy()
      nb.cells = [fn(c) for c in b.cells]
      bl.append(nb)
    return self._with(bl)

  def map(self, fn):
    raise Unsupported('Series.map')

  def _bin(self, op, o, rev=False):
    use('Series.' + op)
    if is_scalar(o):
      c2 = lift(o)
      return self._map(lambda c: cell_op(op, c2, c) if rev else
                       cell_op(op, c, c2))
    if isinstance(o, DataFrame):
      return o._bin(op, self, not rev)
    if isinstance(o, Series):
      names, al = align(self, o)
      out = []
      for v, c, i, c1, c2, m in al:
        a, b = (c2[0], c1[0]) if rev else (c1[0], c2[0])
        out.append(Block(v, c, i, [cell_op(op, a, b)], m))
      r = Series._make(out, names, self.name if self.name == o.name else None)
      return r
    if isinstance(o, _np.ndarray) and o.ndim == 0:
      return self._bin(op, o.item(), rev)
    raise Unsupported('Series %s %s' % (op, type(o)))

  def _agg(self, fn):
    return SymNum(fn([(b, b.cells[0]) for b in self._blocks]))

  def sum(self, axis=None, **k):
    use('sum')
    return self._agg(agg_sum)

  def count(self):
    use('count')
    return self._agg(agg_count)

  def mean(self, axis=None, **k):
    use('mean')
    return self._agg(agg_mean)

  def var(self, axis=None, ddof=1, **k):
    use('var')
    return self._agg(lambda it: agg_var(it, ddof))

  def std(self, axis=None, ddof=1, **k):
    use('std')
    return self._agg(lambda it: cell_fn('sqrt', agg_var(it, ddof)))

  def max(self, **k):
    use('max')
    return self._agg(lambda it: agg_ext(it, 'max'))

  def min(self, **k):
    use('min')
    return self._agg(lambda it: agg_ext(it, 'min'))

  def nunique(self):
    use('nunique')
    return self._agg(agg_nunique)

  def quantile(self, q=0.5, interpolation='linear'):
    use('quantile')
    if not isinstance(q, (int, float)):
      raise Unsupported('quantile list')
    return self._agg(lambda it: agg_opq(it, 'quantile;%s;%s' %
                                        (q, interpolation)))

  def corr(self, other, method='pearson'):
    use('corr')
    names, al = align(self, other)
    return SymNum(agg_corr(al, method))

  def any(self):
    return SymBool(T.or_(*[T.exists(b.vars, T.and_(b.cond, b.cells[0].val))
                           for b in self._blocks]))

  def all(self):
    return SymBool(T.neg(T.or_(*[T.exists(b.vars, T.and_(
        b.cond, T.neg(b.cells[0].val))) for b in self._blocks])))

  def unique(self):
    use('Series.unique')
    bl = []
    for b in self._blocks:
      bl.append(Block(b.vars, T.and_(b.cond, T.neg(b.cells[0].null)),
                      [b.cells[0].val], []))
    return _make_index(_Frame0(_group_blocks(bl, [lambda b: b.idx[0]]),
                               [self.name]))

  def isin(self, vals):
    use('isin')
    if isinstance(vals, Index) and vals._frame is not None:
      raise Unsupported('isin symbolic')
    vs = [lift(v) for v in vals]
    return self._map(lambda c: Cell(T.FALSE, T.and_(
        T.neg(c.null), T.or_(*[T.eq(c.val, v.val) for v in vs]))))

  def to_frame(self, name=None):
    use('to_frame')
    return DataFrame._make([b.copy() for b in self._blocks], self._names,
                           [name if name is not None else
                            (0 if self.name is None else self.name)])

  def rename(self, name=None, **k):
    r = self.copy()
    r.name = name
    return r

  def squeeze(self, axis=None):
    use('squeeze')
    if len(self._blocks) == 1 and not self._blocks[0].vars and self._blocks[
        0].cond is T.TRUE:
      return SymNum(self._blocks[0].cells[0])
    if all(not b.vars and b.cond is T.TRUE for b in self._blocks):
      return self.copy()
    if any(b.vars for b in self._blocks):
      # more than one row is possible
      n = self.sym_len()
      if symctx.CTX.branch(T.eq(n, T.ONE)):
        raise Unsupported('squeeze of a symbolic one-row series')
      return self.copy()
    raise Unsupported('squeeze')

  def unstack(self, level=-1, fill_value=None):
    return self.to_frame()._unstack(level, series=True)

  @property
  def iloc(self):
    return _ILoc(self)

  @property
  def loc(self):
    return _Loc(self)

  def __getitem__(self, k):
    if isinstance(k, (Series, Mask)):
      return _mask_rows(self, k)
    if is_scalar(k) or isinstance(k, tuple):
      return self.xs(k)
    raise Unsupported('Series getitem')

  def __setitem__(self, k, v):
    raise Unsupported('Series setitem')

  def items(self):
    for b in self._blocks:
      if b.vars or b.cond is not T.TRUE:
        raise Unsupported('iteration over symbolic series')
      v = tuple(key_value(i) for i in b.idx)
      yield (v[0] if len(v) == 1 else v), SymNum(b.cells[0])

  def __iter__(self):
    for _, v in self.items():
      yield v

  @property
  def values(self):
    use('Series.values')
    return Vec([v for _, v in self.items()])

  def dot(self, v):
    use('Series.dot')
    return Vec([x for _, x in self.items()]).dot(v)

  @property
  def dtype(self):
    return _np.dtype(float)

  def __repr__(self):
    return 'Series(name=%r, names=%r, %s)' % (self.name, self._names, [
        (b.vars, b.cond, b.idx, b.cells) for b in self._blocks])

  __hash__ = object.__hash__


class Vec(list):
  """A one-dimensional array of fixed length."""

  __array_ufunc__ = None

  def _op(self, o, f):
    if is_scalar(o) or isinstance(o, SymNum):
      return Vec([f(x, o) for x in self])
    if isinstance(o, (Vec, list, _np.ndarray)) and len(o) == len(self):
      return Vec([f(x, y) for x, y in zip(self, o)])
    raise Unsupported('array operation')

  def __add__(self, o):
    return self._op(o, lambda x, y: x + y)

  def __radd__(self, o):
    return self._op(o, lambda x, y: y + x)

  def __sub__(self, o):
    return self._op(o, lambda x, y: x - y)

  def __rsub__(self, o):
    return self._op(o, lambda x, y: y - x)

  def __mul__(self, o):
    return self._op(o, lambda x, y: x * y)

  __rmul__ = __mul__

  def __truediv__(self, o):
    return self._op(o, lambda x, y: x / y)

  def __rtruediv__(self, o):
    return self._op(o, lambda x, y: y / x)

  def __pow__(self, o):
    return self._op(o, lambda x, y: x**y)

  def __neg__(self):
    return Vec([-x for x in self])

  def dot(self, o):
    out = 0
    for x in self._op(o, lambda x, y: x * y):
      out = out + x
    return out

  @property
  def shape(self):
    return (len(self),)

  def tolist(self):
    return list(self)


def _mask_rows(f, k):
  if isinstance(k, Mask):
    return f._filter(lambda b, i: k.cond_for(b, i))
  # boolean series aligned by index
  if len(k._blocks) == len(f._blocks) and all(
      p.vars == q.vars and p.idx == q.idx for p, q in zip(
          f._blocks, k._blocks)):
    return f._filter(lambda b, i: k._blocks[i].cells[0].val)
  raise Unsupported('boolean indexing with a different index')


class DataFrame(_Rows):

  def __init__(self, data=None, index=None, columns=None, dtype=None):
    self._colnames = [None]
    if isinstance(data, DataFrame):
      self._blocks = [b.copy() for b in data._blocks]
      self._names = list(data._names)
      self._columns = list(data._columns)
      self._colnames = list(data._colnames)
      if columns is not None:
        r = data[list(columns)]
        self._assign(r)
      return
    if isinstance(data, Series):
      self._assign(data.to_frame())
      if columns is not None:
        columns = list(columns)
        if data.name is None:
          self._columns = columns
        elif columns != [data.name]:
          raise Unsupported('DataFrame(series, columns)')
      return
    if isinstance(data, Index):
      raise Unsupported('DataFrame(index)')
    if isinstance(data, dict):
      use('DataFrame(dict)')
      if any(isinstance(v, Series) for v in data.values()):
        if not all(isinstance(v, Series) for v in data.values()):
          raise Unsupported('DataFrame(dict mixed)')
        r = concat([v.rename(k) for k, v in data.items()], axis=1)
        self._assign(r)
        return
      vals = {k: (list(v) if not is_scalar(v) else [v])
              for k, v in data.items()}
      n = len(next(iter(vals.values()))) if vals else 0
      labs = list(index) if index is not None else list(builtins.range(n))
      self._blocks = [
          Block((), T.TRUE, [key_term(labs[i])],
                [lift(v[i]) for v in vals.values()])
          for i in builtins.range(n)]
      self._columns = list(vals)
      self._names = [index.name if isinstance(index, Index) else None]
      return
    if isinstance(data, (list, tuple)):
      data = list(data)
      use('DataFrame(list)')
      if data and all(isinstance(d, Series) for d in data):
        labs = list(columns) if columns is not None else None
        blocks = []
        if labs is None and index is None and any(
            b.vars or b.cond is not T.TRUE for d in data for b in d._blocks):
          # rows are the series: only its transpose is representable
          self._transposed = concat(
              [d.rename(i if d.name is None else d.name)
               for i, d in enumerate(data)], axis=1)
          self.__class__ = Transposed
          return
        for i, d in enumerate(data):
          if labs is None:
            labs = [key_value(b.idx[0]) for b in d._blocks]
          m = {}
          for b in d._blocks:
            if b.vars or b.cond is not T.TRUE:
              raise Unsupported('DataFrame([symbolic series])')
            m[key_value(b.idx[0]) if len(b.idx) == 1 else tuple(
                key_value(x) for x in b.idx)] = b.cells[0]
          if set(m) - set(labs):
            raise Unsupported('DataFrame(list of series)')
          blocks.append(Block((), T.TRUE, [T.klit(
              i if d.name is None else d.name)],
                              [m.get(l, NAN) for l in labs]))
        self._blocks, self._names, self._columns = blocks, [None], labs
        if columns is not None and isinstance(columns, Index):
          self._colnames = list(columns._names)
        return
      rows = [list(r) if not is_scalar(r) else [r] for r in data]
      n = len(rows[0]) if rows else 0
      self._columns = list(columns) if columns is not None else list(
          builtins.range(n))
      labs = list(index) if index is not None else list(
          builtins.range(len(rows)))
      self._blocks = [Block((), T.TRUE, [key_term(l)], [lift(x) for x in r])
                      for l, r in zip(labs, rows)]
      self._names = [index.name if isinstance(index, Index) else None]
      return
    if data is None and columns is None and index is None:
      self._blocks, self._names, self._columns = [], [None], []
      return
    raise Unsupported('DataFrame(%s)' % type(data))

  @classmethod
  def _make(cls, blocks, names, columns, colnames=None):
    d = cls.__new__(cls)
    d._blocks, d._names = blocks, list(names)
    d._columns = list(columns)
    d._colnames = list(colnames) if colnames else (
        [None] * len(columns[0]) if columns and isinstance(columns[0], tuple)
        and all(isinstance(c, tuple) for c in columns) else [None])
    return d

  def _copy(self):
    r = DataFrame._make([b.copy() for b in self._blocks], list(self._names),
                        list(self._columns), list(self._colnames))
    for k, v in self.__dict__.items():
      if k not in r.__dict__:
        pass
    return r

  def _assign(self, o):
    self._blocks, self._names = o._blocks, o._names
    self._columns, self._colnames = o._columns, o._colnames

  def _with(self, blocks, names=None):
    return DataFrame._make(blocks, self._names if names is None else names,
                           self._columns, self._colnames)

  def _row(self, block, key):
    bl = []
    for c, l in zip(block.cells, self._columns):
      cc = c if block.cond is T.TRUE else Cell(
          T.or_(T.neg(block.cond), c.null), c.val)
      bl.append(Block((), T.TRUE, [key_term(x) for x in (
          l if isinstance(l, tuple) and len(self._colnames) > 1 else (l,))],
                      [cc]))
    return Series._make(bl, list(self._colnames), key)

  def _map(self, fn):
    bl = []
    for b in self._blocks:
      nb = b.copy()
      nb.cells = [fn(c) for c in b.cells]
      bl.append(nb)
    return self._with(bl)

  @property
  def columns(self):
    return ColumnsIndex(self)

  @columns.setter
  def columns(self, v):
    if isinstance(v, Index):
      labs, names = list(v.labels()), list(v._getnames())
    else:
      labs = list(v)
      names = [None]
      if labs and all(isinstance(l, tuple) for l in labs):
        names = [None] * len(labs[0])
    if len(labs) != len(self._columns):
      raise ValueError('Length mismatch: Expected axis has %d elements, new '
                       'values have %d elements' % (len(self._columns),
                                                    len(labs)))
    self._columns, self._colnames = labs, names

  def keys(self):
    return self.columns

  def __iter__(self):
    return iter(list(self._columns))

  def __contains__(self, c):
    if c in self._columns:
      return True
    return any(isinstance(l, tuple) and l and l[0] == c for l in self._columns)

  def items(self):
    for i, c in enumerate(self._columns):
      yield c, self._col(i)

  def _col(self, i):
    bl = []
    for b in self._blocks:
      nb = b.copy()
      nb.cells = [b.cells[i]]
      bl.append(nb)
    return Series._make(bl, list(self._names), self._columns[i])

  def _cols(self, pos):
    bl = []
    for b in self._blocks:
      nb = b.copy()
      nb.cells = [b.cells[i] for i in pos]
      bl.append(nb)
    return DataFrame._make(bl, list(self._names),
                           [self._columns[i] for i in pos],
                           list(self._colnames))

  def __getitem__(self, k):
    if isinstance(k, (Series, Mask)):
      return _mask_rows(self, k)
    if isinstance(k, _np.ndarray):
      raise Unsupported('boolean array indexing')
    if isinstance(k, (list, Index)) or (
        isinstance(k, tuple) and k not in self._columns and
        len(self._colnames) == 1 and all(x in self._columns for x in k)):
      pos = []
      for x in k:
        p = [i for i, c in enumerate(self._columns) if c == x]
        if not p:
          raise KeyError(x)
        pos += p
      return self._cols(pos)
    if len(self._colnames) > 1 and not (isinstance(k, tuple) and
                                        len(k) == len(self._colnames)):
      kk = k if isinstance(k, tuple) else (k,)
      pos = [i for i, c in enumerate(self._columns) if c[:len(kk)] == kk]
      if not pos:
        raise KeyError(k)
      r = self._cols(pos)
      labs = [c[len(kk):] for c in r._columns]
      if len(labs[0]) == 1:
        labs = [l[0] for l in labs]
      r._columns = labs
      r._colnames = self._colnames[len(kk):]
      return r
    pos = [i for i, c in enumerate(self._columns) if c == k]
    if not pos:
      raise KeyError(k)
    if len(pos) > 1:
      return self._cols(pos)
    # pandas hands out the same object until the column changes
    ic = self.__dict__.setdefault('_items', {})
    sig = (tuple(id(b) for b in self._blocks), pos[0],
           tuple(b.cells[pos[0]] for b in self._blocks))
    hit = ic.get(k)
    if hit is not None and hit[0] == sig and hit[1].name == k and hit[
        1]._blocks is hit[2]:
      return hit[1]
    r = self._col(pos[0])
    ic[k] = (sig, r, r._blocks)
    return r

  def __setitem__(self, k, v):
    use('setitem')
    if isinstance(k, (list, Index)):
      k = list(k)
      if isinstance(v, DataFrame):
        for a, b in zip(k, v._columns):
          self[a] = v[b]
        return
      raise Unsupported('setitem list')
    if is_scalar(v):
      c = lift(v)
      cells = [c] * len(self._blocks)
      blocks = self._blocks
    elif isinstance(v, Series):
      if len(v._blocks) == len(self._blocks) and all(
          p.vars == q.vars and p.idx == q.idx and p.cond is q.cond
          for p, q in zip(self._blocks, v._blocks)):
        cells = [q.cells[0] for q in v._blocks]
        blocks = self._blocks
      else:
        if len(v._names) != len(self._names):
          raise Unsupported('setitem alignment')
        al = outer_align(self, v, 'left')
        blocks = [Block(vv, c, i, c1, m) for vv, c, i, c1, c2, m in al]
        cells = [c2[0] for vv, c, i, c1, c2, m in al]
    else:
      raise Unsupported('setitem %s' % type(v))
    pos = [i for i, c in enumerate(self._columns) if c == k]
    nb = []
    for b, c in zip(blocks, cells):
      b = b.copy()
      if pos:
        for p in pos:
          b.cells[p] = c
      else:
        b.cells = b.cells + [c]
      nb.append(b)
    self._blocks = nb
    if not pos:
      self._columns = self._columns + [k]

  def __delitem__(self, k):
    pos = [i for i, c in enumerate(self._columns) if c != k]
    self._assign(self._cols(pos))

  def assign(self, **kw):
    r = self.copy()
    for k, v in kw.items():
      r[k] = v(r) if callable(v) else v
    return r

  def drop(self, labels=None, axis=0, columns=None, inplace=False, level=None,
           **kw):
    use('drop')
    if kw or level is not None:
      raise Unsupported('drop options')
    if columns is None and axis in (1, 'columns'):
      columns = labels
    if columns is None:
      raise Unsupported('drop rows')
    cs = names_of(columns) if not isinstance(columns, tuple) else [columns]
    for c in cs:
      if c not in self._columns:
        raise KeyError(c)
    r = self._cols([i for i, c in enumerate(self._columns) if c not in cs])
    if inplace:
      self._assign(r)
      return None
    return r

  def rename(self, columns=None, **k):
    if k or columns is None:
      raise Unsupported('rename')
    r = self.copy()
    f = columns if callable(columns) else lambda c: columns.get(c, c)
    r._columns = [f(c) for c in r._columns]
    return r

  def query(self, expr, **kw):
    use('query')
    if kw:
      raise Unsupported('query options')
    e = parse_query(expr)
    return self._filter(lambda b, i: eval_query(e, self, b))

  def dropna(self, subset=None, how='any', **kw):
    use('dropna')
    if kw.get('inplace') or how not in ('any', 'all'):
      raise Unsupported('dropna options')
    cols = list(self._columns) if subset is None else names_of(subset)
    pos = [self._columns.index(c) for c in cols]
    comb = T.or_ if how == 'any' else T.and_
    r = self._filter(lambda b, i: T.neg(comb(*[b.cells[p].null
                                               for p in pos])))
    # dropping rows keeps the order of the others
    return r._set_order(self._get_order())

  def set_index(self, keys, append=False, inplace=False, drop=True, **kw):
    use('set_index')
    ks = names_of(keys) if not isinstance(keys, tuple) else [keys]
    if isinstance(keys, (Index, Series)):
      raise Unsupported('set_index(array)')
    pos = [self._columns.index(k) if k in self._columns else _kerr(k)
           for k in ks]
    rest = [i for i in range_(len(self._columns)) if i not in pos]
    bl = []
    for b in self._blocks:
      nb = b.copy()
      nb.idx = (list(b.idx) if append else []) + [b.cells[p].val for p in pos]
      nb.cells = [b.cells[i] for i in rest]
      bl.append(nb)
    r = DataFrame._make(bl, (self._names if append else []) + ks,
                        [self._columns[i] for i in rest], self._colnames)
    if inplace:
      self._assign(r)
      return None
    return r

  def squeeze(self, axis=None):
    use('squeeze')
    if len(self._columns) == 1:
      s = self._col(0)
      return s if axis in (1, 'columns') else s.squeeze()
    if axis in (1, 'columns'):
      return self.copy()
    raise Unsupported('squeeze frame')

  def _bin(self, op, o, rev=False):
    use('DataFrame.' + op)
    if is_scalar(o):
      c2 = lift(o)
      return self._map(lambda c: cell_op(op, c2, c) if rev else
                       cell_op(op, c, c2))
    if isinstance(o, Series):
      return self._bin_cols(op, o, rev)
    if isinstance(o, DataFrame):
      cols = list(self._columns)
      if cols != list(o._columns):
        if len(set(cols)) != len(cols) or len(set(o._columns)) != len(
            o._columns):
          raise Unsupported('frame arithmetic with duplicate columns')
        allc = cols + [c for c in o._columns if c not in cols]
        if set(cols) != set(o._columns):
          allc = sorted(allc, key=str)
      else:
        allc = cols
      names, al = align(self, o)
      out = []
      for v, c, i, c1, c2, m in al:
        cells = []
        for n, cc in enumerate(allc):
          if allc is cols and cols == list(o._columns):
            a, b = c1[n], c2[n]
          else:
            a = c1[cols.index(cc)] if cc in cols else NAN
            b = c2[o._columns.index(cc)] if cc in o._columns else NAN
          if rev:
            a, b = b, a
          cells.append(cell_op(op, a, b))
        out.append(Block(v, c, i, cells, m))
      return DataFrame._make(out, names, allc, self._colnames)
    raise Unsupported('DataFrame %s %s' % (op, type(o)))

  def _bin_cols(self, op, s, rev):
    """frame op Series: the series' index is matched with the columns."""
    m = {}
    for b in s._blocks:
      if b.vars or b.cond is not T.TRUE:
        raise Unsupported('frame op symbolic-index series')
      k = tuple(key_value(i) for i in b.idx)
      m[k[0] if len(k) == 1 else k] = b.cells[0]
    if set(m) != set(self._columns):
      raise Unsupported('frame op series with other labels')
    bl = []
    for b in self._blocks:
      nb = b.copy()
      nb.cells = [cell_op(op, m[l], c) if rev else cell_op(op, c, m[l])
                  for l, c in zip(self._columns, b.cells)]
      bl.append(nb)
    return self._with(bl)

  def _bin_rows(self, op, s):
    names, al = align(self, s)
    out = []
    for v, c, i, c1, c2, m in al:
      out.append(Block(v, c, i, [cell_op(op, a, c2[0]) for a in c1], m))
    return DataFrame._make(out, names, self._columns, self._colnames)

  def _colagg(self, fn):
    bl = []
    for i, l in enumerate(self._columns):
      c = fn([(b, b.cells[i]) for b in self._blocks])
      bl.append(Block((), T.TRUE, [key_term(x) for x in (
          l if isinstance(l, tuple) and len(self._colnames) > 1 else (l,))],
                      [c]))
    return Series._make(bl, list(self._colnames), None)

  def _rowagg(self, fn):
    bl = []
    for b in self._blocks:
      nb = b.copy()
      nb.cells = [fn([(Block((), T.TRUE, [], []), c) for c in b.cells])]
      bl.append(nb)
    return Series._make(bl, self._names, None)

  def _anyagg(self, fn, axis):
    if axis in (0, 'index', None):
      return self._colagg(fn)
    return self._rowagg(fn)

  def sum(self, axis=0, **k):
    use('sum')
    return self._anyagg(agg_sum, axis)

  def count(self, axis=0, **k):
    use('count')
    return self._anyagg(agg_count, axis)

  def mean(self, axis=0, **k):
    use('mean')
    return self._anyagg(agg_mean, axis)

  def var(self, axis=0, ddof=1, **k):
    use('var')
    return self._anyagg(lambda it: agg_var(it, ddof), axis)

  def std(self, axis=0, ddof=1, **k):
    use('std')
    return self._anyagg(lambda it: cell_fn('sqrt', agg_var(it, ddof)), axis)

  def max(self, axis=0, **k):
    use('max')
    return self._anyagg(lambda it: agg_ext(it, 'max'), axis)

  def min(self, axis=0, **k):
    use('min')
    return self._anyagg(lambda it: agg_ext(it, 'min'), axis)

  def apply(self, fn, axis=0, **k):
    use('apply')
    if axis not in (0, 'index') or k:
      raise Unsupported('apply axis')
    res = [fn(self._col(i)) for i in range_(len(self._columns))]
    if all(isinstance(r, SymNum) or is_scalar(r) for r in res):
      return Series._make([
          Block((), T.TRUE, [key_term(l)], [lift(r)])
          for l, r in zip(self._columns, res)], [None], None)
    raise Unsupported('apply result')

  def join(self, other, on=None, how='left', **kw):
    use('join')
    lsuf, rsuf = kw.pop('lsuffix', ''), kw.pop('rsuffix', '')
    kw.pop('sort', None)
    if on is not None or kw:
      raise Unsupported('join options')
    if isinstance(other, Series):
      other = other.to_frame(other.name)
    both = set(self._columns) & set(other._columns)
    if both:
      if not lsuf and not rsuf:
        raise ValueError('columns overlap')
      if not all(isinstance(c, str) for c in both):
        raise Unsupported('suffix on labels')
      cl = [c + lsuf if c in both else c for c in self._columns]
      cr = [c + rsuf if c in both else c for c in other._columns]
      self = DataFrame._make(self._blocks, self._names, cl, self._colnames)
      other = DataFrame._make(other._blocks, other._names, cr, other._colnames)
    if set(self._names) == set(other._names) and len(self._names) == len(
        other._names):
      if self._names != other._names:
        other = other.reorder_levels(self._names)
      al = outer_align(self, other, how)
      names = self._names
    elif set(other._names) < set(self._names) and how in ('left', 'inner'):
      if how == 'inner':
        raise Unsupported('inner level join')
      al = level_align(self, other)
      names = self._names
    else:
      raise Unsupported('join on %s / %s' % (self._names, other._names))
    return DataFrame._make([Block(v, c, i, list(c1) + list(c2), m)
                            for v, c, i, c1, c2, m in al], names,
                           self._columns + other._columns, None)

  def merge(self, other, how='inner', on=None, suffixes=('_x', '_y'), **k):
    """Relational join on columns and / or index levels present in both."""
    use('merge')
    if k or how not in ('inner', 'outer') or on is None or not isinstance(
        other, DataFrame):
      raise Unsupported('merge options')
    on = names_of(on)

    def where(f, n):
      if n in f._columns:
        return ('col', f._columns.index(n))
      if n in f._names:
        return ('lvl', f._names.index(n))
      raise KeyError(n)

    wl, wr = [where(self, n) for n in on], [where(other, n) for n in on]
    kinds = {k for k, _ in wl + wr}
    if kinds == {'col', 'lvl'}:
      raise Unsupported('merge of columns with index levels')
    lvl = kinds == {'lvl'}
    if lvl and not (on == self._names == other._names):
      raise Unsupported('merge on some of the index levels')
    key = lambda b, w: [b.idx[p] if k == 'lvl' else b.cells[p].val
                        for k, p in w]
    null = lambda b, w: T.or_(*[b.cells[p].null for k, p in w if k == 'col'])
    lk = [p for k, p in wl if k == 'col']
    rk = [p for k, p in wr if k == 'col']
    lpos = [i for i in range_(len(self._columns)) if i not in lk]
    rpos = [i for i in range_(len(other._columns)) if i not in rk]
    both = {self._columns[i] for i in lpos} & {other._columns[i] for i in rpos}
    if both and not all(isinstance(c, str) for c in both):
      raise Unsupported('suffix on labels')
    cols = ([c + suffixes[0] if c in both else c for c in self._columns] +
            [other._columns[i] + suffixes[1] if other._columns[i] in both
             else other._columns[i] for i in rpos])
    parts = []
    for p in self._blocks:
      for q0 in other._blocks:
        q = q0.fresh()
        ka, kb = key(p, wl), key(q, wr)
        if null(p, wl) is not T.FALSE or null(q, wr) is not T.FALSE:
          raise Unsupported('merge on nulls')
        if not all(a.op == 'klit' or a.op == 'num' or a.op == 'var'
                   for a in ka + kb):
          raise Unsupported('merge on computed keys')
        if p.mult is not T.ONE or q.mult is not T.ONE:
          raise Unsupported('merge of repeated rows')
        b = Block(p.vars + q.vars, T.and_(p.cond, q.cond, *[
            T.eq(a, b) for a, b in zip(ka, kb)]), p.idx,
                  list(p.cells) + [q.cells[i] for i in rpos])
        b = b.eliminate()
        if b.cond is not T.FALSE:
          parts.append(b)
    if how == 'outer':
      for a, wa, o, wo, left in ((self, wl, other, wr, True),
                                 (other, wr, self, wl, False)):
        for p in a._blocks:
          cond = p.cond
          for q0 in o._blocks:
            q = q0.fresh()
            cond = T.and_(cond, T.neg(T.exists(q.vars, T.and_(q.cond, *[
                T.eq(x, y) for x, y in zip(key(p, wa), key(q, wo))]))))
          if cond is T.FALSE or T.and_(p.cond, cond) is T.FALSE:
            continue
          if left:
            cells = list(p.cells) + [NAN] * len(rpos)
          else:
            cells = [NAN] * len(self._columns)
            for i, j in zip(lk, rk):
              cells[i] = p.cells[j]
            cells += [p.cells[i] for i in rpos]
          parts.append(Block(p.vars, cond, p.idx, cells))
    if not lvl:
      for n, b in enumerate(parts):
        b.idx = [T._mk('app', ('rid',) + tuple(b.vars) + (
            () if len(parts) == 1 else (T.klit('#%d' % n),)), 'W')]
    return DataFrame._make(parts, list(on) if lvl else [None], cols)

  def unstack(self, level=-1, fill_value=None):
    use('unstack')
    return self._unstack(level)

  def _unstack(self, level, series=False):
    use('unstack')
    levels = names_of(level)
    if len(levels) != 1:
      raise Unsupported('unstack many')
    pos = _level_pos(self._names, levels[0])
    return Wide(self, pos, series)

  def stack(self, level=-1, future_stack=False, **k):
    use('stack')
    if (not future_stack or k or len(self._colnames) != 1
        or level not in (0, -1, self._colnames[0])):
      raise Unsupported('stack')
    bl = []
    for b in self._blocks:
      for n, l in enumerate(self._columns):
        bl.append(Block(b.vars, b.cond, list(b.idx) + [key_term(l)],
                        [b.cells[n]], b.mult))
    return Series._make(bl, list(self._names) + [self._colnames[0]], None)

  @property
  def T(self):
    if all(not b.vars and b.cond is T.TRUE for b in self._blocks):
      cols = [tuple(key_value(i) for i in b.idx) for b in self._blocks]
      cols = [c[0] if len(c) == 1 else c for c in cols]
      bl = []
      for n, l in enumerate(self._columns):
        bl.append(Block((), T.TRUE, [key_term(x) for x in (
            l if isinstance(l, tuple) and len(self._colnames) > 1 else (l,))],
                        [b.cells[n] for b in self._blocks]))
      return DataFrame._make(bl, list(self._colnames), cols, list(self._names))
    raise Unsupported('transpose of symbolic frame')

  @property
  def iloc(self):
    return _ILoc(self)

  @property
  def loc(self):
    return _Loc(self)

  def iterrows(self):
    raise Unsupported('iterrows')

  @property
  def values(self):
    raise Unsupported('DataFrame.values')

  def dot(self, v):
    use('DataFrame.dot')
    if not isinstance(v, Vec) or len(v) != len(self._columns) or not v:
      raise Unsupported('DataFrame.dot')
    out = None
    for i, x in enumerate(v):
      c = self._col(i) * x
      out = c if out is None else out + c
    return out.rename(None)

  def __repr__(self):
    return 'DataFrame(columns=%r, names=%r, %s)' % (
        self._columns, self._names,
        [(b.vars, b.cond, b.idx, b.cells) for b in self._blocks])

  __hash__ = object.__hash__


range_ = builtins.range


def _kerr(k):
  raise KeyError(k)


class ColumnsIndex(Index):
  """View of a frame's columns."""

  def __new__(cls, frame):
    if len(frame._colnames) > 1:
      m = MultiIndex.__new__(MultiColumns)
    else:
      m = object.__new__(ColumnsIndex)
    m._df = frame
    m._frame = None
    return m

  def __init__(self, frame):
    pass

  @property
  def _labels(self):
    return list(self._df._columns)

  @property
  def _names(self):
    return self._df._colnames

  @_names.setter
  def _names(self, v):
    self._df._colnames = list(v)

  def copy(self):
    c = MultiIndex if len(self._names) > 1 else Index
    return c(list(self._labels), names=list(self._names))

  def set_levels(self, levels, level=None, **kw):
    return self.copy().set_levels(levels, level)


class MultiColumns(MultiIndex):
  _labels = ColumnsIndex._labels
  _names = ColumnsIndex._names
  copy = ColumnsIndex.copy


class _ILoc(object):

  def __init__(self, f):
    self._f = f

  def __getitem__(self, k):
    f = self._f
    if isinstance(f, Series):
      if isinstance(k, GenRows):
        return k.select(f)
      if isinstance(k, int):
        if all(not b.vars and b.cond is T.TRUE for b in f._blocks):
          return SymNum(f._blocks[k].cells[0])
      raise Unsupported('Series.iloc')
    if isinstance(k, GenRows):
      return k.select(f)
    if isinstance(k, Copies):
      return k.of(f)
    if isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None):
      c = k[1]
      n = len(f._columns)
      if isinstance(c, int):
        return f._col(c if c >= 0 else n + c)
      if isinstance(c, slice):
        return f._cols(list(range_(n))[c])
      if isinstance(c, list):
        return f._cols([x if x >= 0 else n + x for x in c])
    if isinstance(k, int) and all(not b.vars and b.cond is T.TRUE
                                  for b in f._blocks):
      b = f._blocks[k]
      return f._row(b, key_value(b.idx[0]))
    raise Unsupported('iloc')

  def __setitem__(self, k, v):
    f = self._f
    use('iloc setitem')
    if isinstance(f, DataFrame) and isinstance(k, tuple) and k[0] == slice(
        None) and isinstance(k[1], int):
      i = k[1]
      lab = f._columns[i]
      f._columns[i] = _Unique
      try:
        f[_Unique] = v
      finally:
        f._columns[i] = lab
      return
    raise Unsupported('iloc assignment')


def _loc_index(f, k):
  """f.loc[index]: for each label of the index all rows with that label."""
  use('loc[index]')
  if list(k.names) != list(f._names) or len(k._frame._blocks) != 1:
    raise Unsupported('loc[index] of another index')
  out = []
  for b in f._blocks:
    for c in k._frame._blocks:
      b2, c = b.fresh(), c.fresh()
      out.append(Block(list(b2.vars) + list(c.vars), T.and_(
          b2.cond, c.cond, *[T.eq(x, y) for x, y in zip(b2.idx, c.idx)]),
                       b2.idx, b2.cells, T.mul(b2.mult, c.mult)))
  r = f._copy()
  r._blocks = out
  return r


class _Loc(object):

  def __init__(self, f):
    self._f = f

  def __getitem__(self, k):
    f = self._f
    if isinstance(k, (Series, Mask)):
      return _mask_rows(f, k)
    if isinstance(k, Index) and k._frame is not None:
      return _loc_index(f, k)
    if isinstance(k, tuple) and len(k) == 2 and isinstance(
        f, DataFrame) and k[0] == slice(None):
      if isinstance(k[1], _np.ndarray) and k[1].dtype == bool:
        return f._cols([int(i) for i in _np.nonzero(k[1])[0]])
      return f[k[1]]
    if is_scalar(k):
      return f.xs(k)
    if isinstance(k, tuple) and len(k) <= len(f._names):
      return f.xs(k)
    raise Unsupported('loc')

  def __setitem__(self, k, v):
    raise Unsupported('loc assignment')


# ------------------------------------------------------------------ aggregates
def _prep(items):
  """[(block, cell)] -> list of (vars, cond incl. non-null, val, mult)."""
  out = []
  for b, c in items:
    out.append((b.vars, T.and_(b.cond, T.neg(c.null)), _asnum(c.val), b.mult))
  return out


def _sum_of(parts, f):
  return T.add(*[T.agg('sum', v, c, T.mul(f(x), m)) if v else T.ite(
      c, T.mul(f(x), m), T.ZERO) for v, c, x, m in parts])


def cell_sort_ok(c):
  return c.val.sort in ('R', 'B')


def agg_sum(items):
  return Cell(T.FALSE, _sum_of(_prep(items), lambda x: x))


def agg_count(items):
  return Cell(T.FALSE, _sum_of([(v, c, T.ONE, m)
                                for v, c, _, m in _prep(items)],
                               lambda x: x))


def agg_mean(items):
  n = agg_count(items).val
  return Cell(T.eq(n, T.ZERO), T.div(agg_sum(items).val, n))


def agg_var(items, ddof):
  p = _prep(items)
  n = agg_count(items).val
  d = lift(ddof).val
  m = T.div(_sum_of(p, lambda x: x), n)
  ss = _sum_of(p, lambda x: T.power(T.minus(x, m), 2))
  return Cell(T.le(n, d), T.div(ss, T.minus(n, d)))


def agg_ext(items, kind):
  p = _prep(items)
  p = [q for q in p if q[1] is not T.FALSE]
  if len(p) != 1:
    raise Unsupported('%s over several blocks' % kind)
  v, c, x, m = p[0]
  if m is not T.ONE:
    c = T.and_(c, T.lt(T.ZERO, m))
  if not v:
    return Cell(T.neg(c), x)
  if not (x.fv & set(v)) and False:
    return Cell(T.neg(T.exists(v, c)), x)
  return Cell(T.neg(T.exists(v, c)), T.agg(kind, v, c, x))


def agg_opq(items, name, multi=True):
  out = [q for q in _prep(items) if q[1] is not T.FALSE]
  if len(out) != 1:
    raise Unsupported('%s over several blocks' % name)
  v, c, x, m = out[0]
  if m is not T.ONE:
    raise Unsupported('%s with multiplicities' % name)
  return Cell(T.neg(T.exists(v, c)), T.agg('opq:' + name, v, c, x))


def agg_nunique(items):
  out = []
  for b, c in items:
    out.append((b.vars, T.and_(b.cond, T.neg(c.null)), c.val, b.mult))
  out = [q for q in out if q[1] is not T.FALSE]
  if len(out) != 1:
    raise Unsupported('nunique over several blocks')
  v, c, x, m = out[0]
  return Cell(T.FALSE, T.agg('opq:nunique', v, c, x))


def agg_corr(al, method):
  if len(al) != 1:
    raise Unsupported('corr')
  v, c, i, c1, c2, m = al[0]
  cond = T.and_(c, T.neg(c1[0].null), T.neg(c2[0].null))
  n = T.agg('sum', v, cond, T.ONE)
  if method != 'pearson':
    return Cell(T.lt(n, T.num(2)), T.agg('opq:corr;%s' % method, v, cond,
                                         c1[0].val, c2[0].val))
  mx = T.div(T.agg('sum', v, cond, c1[0].val), n)
  my = T.div(T.agg('sum', v, cond, c2[0].val), n)
  sxy = T.agg('sum', v, cond, T.mul(T.minus(c1[0].val, mx),
                                    T.minus(c2[0].val, my)))
  sxx = T.agg('sum', v, cond, T.power(T.minus(c1[0].val, mx), 2))
  syy = T.agg('sum', v, cond, T.power(T.minus(c2[0].val, my), 2))
  # fewer than two rows have zero variance
  return Cell(T.or_(T.eq(sxx, T.ZERO), T.eq(syy, T.ZERO)),
              T.div(sxy, T.mul(T.sqrt(sxx), T.sqrt(syy))))


# ------------------------------------------------------------------ groupby
class GenKey(SymKey):
  """The label of a generic group of a loop over groups."""

  def __init__(self, term, owner):
    SymKey.__init__(self, term)
    self.owner = owner


class GenRows(object):
  """Row positions of a generic group."""

  def __init__(self, src, condfn):
    self.src, self.condfn = src, condfn

  def select(self, f):
    if len(f._blocks) != len(self.src._blocks) or any(
        p.vars != q.vars for p, q in zip(f._blocks, self.src._blocks)):
      raise Unsupported('iloc with foreign group positions')
    return f._with([b.restrict(self.condfn(s))
                    for b, s in zip(f._blocks, self.src._blocks)])


class GenGroup(object):
  """Owner of the generic keys of one loop: presence condition."""

  def __init__(self, present, sorts):
    self.present = present  # fn(list of key terms) -> Bool
    self.sorts = sorts
    self.intro = []  # path facts introduced for the generic groups
    self.terms = []
    self.keys = []

  def visit(self):
    ctx = symctx.CTX
    prev = None
    for n in (0, 1):
      ks = [T.fresh('grp%d' % n, s) for s in self.sorts]
      intro = [self.present(ks)]
      if prev is not None:
        intro.append(T.neg(T.and_(*[T.eq(a, b) for a, b in zip(ks, prev)])))
      ctx.path += intro
      self.intro += intro
      self.terms += ks
      prev = ks
      gk = tuple(GenKey(k, self) for k in ks)
      self.keys.append(gk)
      if n:
        ctx.loops.append(self)
      yield gk

  def discharge(self, ctx):
    """Drops the assumption that the two generic groups exist."""
    keep = []
    gone = set(self.intro)
    for h in ctx.path:
      if h in gone:
        continue
      if h.fv & set(self.terms):
        raise Unsupported('loop over groups branched on group data')
      keep.append(h)
    ctx.path[:] = keep


class _GenDict(object):
  """groupby(...).indices / .groups : iteration visits two generic groups.

  The body of a loop over groups is executed for two arbitrary groups k1 != k2
  in sequence.  The collected result of the second must be the first's with k2
  for k1 (checked where the results are bound, bind_generic), i.e. iterations
  are independent of the iteration before; the collected list then denotes the
  family over all groups.
  """

  def __init__(self, gb):
    self._gb = gb

  def items(self):
    gb = self._gb
    kt = gb._keyterms
    present = lambda ks: T.or_(*[
        T.exists(b.vars, T.and_(b.cond, gb._notnull(b), *[
            T.eq(a, k) for a, k in zip(kt(b), ks)]))
        for b in (x.fresh() for x in gb._f._blocks)])
    sorts = [t.sort for t in kt(gb._f._blocks[0])]
    own = GenGroup(present, sorts)
    for gk in own.visit():
      ks = [k.term for k in gk]
      yield (gk[0] if gb._scalar_key else gk), GenRows(
          gb._f, lambda b, ks=ks: T.and_(gb._notnull(b), *[
              T.eq(a, k) for a, k in zip(kt(b), ks)]))

  def __len__(self):
    raise Unsupported('number of groups')

  def __iter__(self):
    for k, _ in self.items():
      yield k

  def keys(self):
    return iter(self)

  def values(self):
    for _, v in self.items():
      yield v


def bind_generic(frames):
  """frames: [((GenKey,...), blocks)] for the two generic groups."""
  if len(frames) != 2:
    raise Unsupported('generic loop result of %d elements' % len(frames))
  (k1, b1), (k2, b2) = frames
  if not all(isinstance(k, GenKey) for k in k1 + k2):
    raise Unsupported('mixed generic keys')
  own = k1[0].owner
  if any(k.owner is not own for k in k1 + k2) or len(b1) != len(b2):
    raise Unsupported('generic loop results differ in shape')
  ren = {a.term: b.term for a, b in zip(k1, k2)}
  ctx = symctx.CTX
  for p, q in zip(b1, b2):
    if not same_block(p.subst(ren), q, ctx):
      raise Unsupported('loop iterations are not independent')
  own.discharge(ctx)
  use('loop over groups (independent iterations checked)')
  out = []
  for p in b1:
    ks = [T.fresh('g', k.term.sort) for k in k1]
    m = {k.term: v for k, v in zip(k1, ks)}
    p = p.fresh()
    nb = p.subst(m)
    out.append(Block(tuple(ks) + nb.vars, T.and_(own.present(ks), nb.cond),
                     list(ks) + list(nb.idx), nb.cells, nb.mult))
  return out


def same_block(p, q, ctx):
  if len(p.vars) != len(q.vars) or len(p.idx) != len(q.idx) or len(
      p.cells) != len(q.cells):
    return False
  p = p.fresh()
  m = dict(zip(q.vars, p.vars))
  q = q.subst(m)
  pr = ctx.prover
  h = ctx.hyps
  if not pr.prove(h, T.iff(p.cond, q.cond)):
    return False
  h = h + [p.cond]
  for a, b in zip(p.idx, q.idx):
    if a is not b and not pr.prove(h, T.eq(a, b)):
      return False
  for a, b in zip(p.cells, q.cells):
    if not pr.prove(h, T.iff(a.null, b.null)):
      return False
    if not pr.prove(h + [T.neg(a.null)], T.eq(a.val, b.val)):
      return False
  return True


class GroupBy(object):

  def __init__(self, f, by, level, group_keys=True, cols=None, single=None):
    self._f, self._by, self._level = f, by, level
    self._gk = group_keys
    self._cols = cols  # selected column positions or None
    self._single = single  # selected a single column -> Series results
    names = f._names
    if by is not None:
      bys = names_of(by) if not isinstance(by, Series) else [by]
      self._scalar_key = not isinstance(by, (list, tuple))
      self._sources = []
      self._keynames = []
      for x in bys:
        if isinstance(x, Series):
          raise Unsupported('groupby series')
        if isinstance(f, DataFrame) and x in f._columns:
          self._sources.append(('col', f._columns.index(x)))
        elif x in names:
          self._sources.append(('lvl', names.index(x)))
        else:
          raise KeyError(x)
        self._keynames.append(x)
    else:
      ls = names_of(level)
      self._scalar_key = not isinstance(level, (list, tuple))
      self._sources = [('lvl', _level_pos(names, l)) for l in ls]
      self._keynames = [names[_level_pos(names, l)] for l in ls]
    if len(self._sources) == 1 and by is not None and not isinstance(
        by, (list, tuple)):
      self._scalar_key = True

  def _keyterms(self, b):
    return [b.cells[p].val if k == 'col' else b.idx[p]
            for k, p in self._sources]

  def _notnull(self, b):
    return T.and_(*[T.neg(b.cells[p].null)
                    for k, p in self._sources if k == 'col'])

  def __getitem__(self, k):
    if isinstance(self._f, Series):
      raise Unsupported('groupby getitem')
    if isinstance(k, list):
      pos = [self._f._columns.index(c) for c in k]
      return GroupBy(self._f, self._by, self._level, self._gk, pos, None)
    if k not in self._f._columns:
      raise KeyError('Column not found: %s' % (k,))
    return GroupBy(self._f, self._by, self._level, self._gk,
                   [self._f._columns.index(k)], k)

  def _valpos(self):
    if self._cols is not None:
      return self._cols
    if isinstance(self._f, Series):
      return [0]
    keycols = [p for k, p in self._sources if k == 'col']
    return [i for i in range_(len(self._f._columns)) if i not in keycols]

  def _reduce(self, fn):
    """fn(list of (block, cell)) -> Cell ; result keyed by group."""
    f = self._f
    pos = self._valpos()
    # signature classes: keep constant index labels apart
    classes = {}
    for b in f._blocks:
      kt = self._keyterms(b)
      sig = tuple(k if k.op == 'klit' else None for k in kt)
      classes.setdefault(sig, []).append(b)
    if len(classes) > 1 and any(None in s for s in classes) and any(
        s[i] is not None for s in classes for i in range_(len(s))
        if any(t[i] is None for t in classes)):
      raise Unsupported('mixed constant/symbolic group keys')
    out = []
    for sig, blocks in classes.items():
      kt0 = self._keyterms(blocks[0])
      kv = [s if s is not None else T.fresh('g', t.sort)
            for s, t in zip(sig, kt0)]
      rb = []
      for b in blocks:
        b = b.fresh()
        rb.append(Block(b.vars, T.and_(b.cond, self._notnull(b), *[
            T.eq(a, k) for a, k in zip(self._keyterms(b), kv)]), b.idx,
                        b.cells, b.mult).eliminate())
      cond = T.or_(*[T.exists(b.vars, b.cond) for b in rb])
      cells = [fn([(b, b.cells[p]) for b in rb]) for p in pos]
      vs = [k for k, s in zip(kv, sig) if s is None]
      out.append(Block(vs, cond, kv, cells).eliminate())
    return self._wrap(out)

  def _wrap(self, out, names=None):
    names = names or self._keynames
    f = self._f
    if isinstance(f, Series):
      return Series._make(out, names, f.name)
    if self._single is not None:
      return Series._make(out, names, self._single)
    cols = [f._columns[p] for p in self._valpos()]
    return DataFrame._make(out, names, cols, f._colnames)

  def sum(self, **k):
    use('groupby.sum')
    return self._reduce(agg_sum)

  def count(self):
    use('groupby.count')
    return self._reduce(agg_count)

  def mean(self, **k):
    use('groupby.mean')
    return self._reduce(agg_mean)

  def var(self, ddof=1, **k):
    use('groupby.var')
    return self._reduce(lambda it: agg_var(it, ddof))

  def std(self, ddof=1, **k):
    use('groupby.std')
    return self._reduce(lambda it: cell_fn('sqrt', agg_var(it, ddof)))

  def max(self, **k):
    use('groupby.max')
    return self._reduce(lambda it: agg_ext(it, 'max'))

  def min(self, **k):
    use('groupby.min')
    return self._reduce(lambda it: agg_ext(it, 'min'))

  def nunique(self):
    use('groupby.nunique')
    return self._reduce(agg_nunique)

  def quantile(self, q=0.5, interpolation='linear'):
    use('groupby.quantile')
    if not isinstance(q, (int, float)):
      raise Unsupported('quantile list')
    return self._reduce(lambda it: agg_opq(it, 'quantile;%s;%s' %
                                           (q, interpolation)))

  def first(self, **k):
    use('groupby.first')

    def f(items):
      it = [(b, c) for b, c in items]
      parts = [(b.vars, T.and_(b.cond, T.neg(c.null)), c.val) for b, c in it]
      if len(parts) != 1:
        raise Unsupported('first over several blocks')
      v, c, x = parts[0]
      kind = {'R': 'opq:first', 'K': 'kopq:first', 'B': 'bopq:first'}[x.sort]
      return Cell(T.neg(T.exists(v, c)), T.agg(kind, v, c, x))

    return self._reduce(f)

  def size(self):
    use('groupby.size')
    s = GroupBy(self._f, self._by, self._level, self._gk, [0], None)
    r = s._reduce(lambda it: Cell(T.FALSE, _sum_of(
        [(b.vars, b.cond, T.ONE, b.mult) for b, _ in it], lambda x: x)))
    return Series._make(r._blocks, r._names, None)

  def transform(self, fn, *a, **k):
    """Every row gets the aggregate of its group."""
    use('groupby.transform')
    agg = self.NAMED.get(fn) if isinstance(fn, str) else None
    if agg is None or a or k:
      raise Unsupported('groupby.transform')
    f = self._f
    pos = self._valpos()
    out = []
    for b in f._blocks:
      kt, own = self._keyterms(b), self._notnull(b)
      rb = []
      for q in f._blocks:
        q = q.fresh()
        rb.append(Block(q.vars, T.and_(q.cond, self._notnull(q), *[
            T.eq(x, y) for x, y in zip(self._keyterms(q), kt)]), q.idx,
                        q.cells, q.mult).eliminate())
      cells = []
      for p in pos:
        c = agg([(q, q.cells[p]) for q in rb])
        cells.append(c if own is T.TRUE else Cell(
            T.or_(T.neg(own), c.null), c.val))
      out.append(Block(b.vars, b.cond, b.idx, cells, b.mult))
    return self._wrap(out, list(f._names))

  def cumsum(self, *a, **k):
    use('groupby.cumsum')
    if a or k or self._single is not None or self._cols is not None:
      raise Unsupported('groupby.cumsum options')
    if any(kd != 'lvl' for kd, _ in self._sources):
      raise Unsupported('groupby.cumsum on columns')
    return self._f._cumsum(
        lambda q, b: T.and_(*[T.eq(x, y) for x, y in zip(
            self._keyterms(q), self._keyterms(b))]),
        [p for _, p in self._sources])

  def nlargest(self, n=5, **k):
    use('groupby.nlargest')
    if k or not isinstance(n, int) or any(
        kd != 'lvl' for kd, _ in self._sources):
      raise Unsupported('groupby.nlargest')
    f = self._f
    if self._single is not None:
      p = self._cols[0]
      f = Series._make([Block(b.vars, b.cond, b.idx, [b.cells[p]], b.mult)
                        for b in f._blocks], f._names, self._single)
    elif not isinstance(f, Series):
      raise Unsupported('groupby.nlargest of a frame')
    out = f._nlargest(n, lambda q, b: T.and_(*[T.eq(x, y) for x, y in zip(
        self._keyterms(q), self._keyterms(b))]))
    return Series._make(
        [Block(b.vars, b.cond, self._keyterms(b) + list(b.idx), b.cells,
               b.mult) for b in out], self._keynames + list(f._names), f.name)

  def corr(self, other, method='pearson'):
    use('groupby.corr')
    f = self._f
    if self._single is None:
      raise Unsupported('groupby.corr')

    def run(sub):
      al = outer_align(sub, other, 'left')
      return agg_corr(al, method)

    return self._apply(lambda sub: SymNum(run(sub)))

  def agg(self, fns):
    use('groupby.agg')
    if callable(fns):
      return self._apply(fns)
    if isinstance(fns, str) and fns in self.NAMED:
      return self._reduce(self.NAMED[fns])
    raise Unsupported('groupby.agg')

  aggregate = agg

  NAMED = {
      'sum': agg_sum,
      'count': agg_count,
      'mean': agg_mean,
      'var': lambda it: agg_var(it, 1),
      'std': lambda it: cell_fn('sqrt', agg_var(it, 1)),
      'max': lambda it: agg_ext(it, 'max'),
      'min': lambda it: agg_ext(it, 'min'),
  }

  def apply(self, fn, *a, **k):
    use('groupby.apply')
    if a or set(k) - {'include_groups'}:
      raise Unsupported('apply options')
    return self._apply(fn)

  def _apply(self, fn):
    f = self._f
    kt0 = self._keyterms(f._blocks[0])
    ks = [T.fresh('k', t.sort) for t in kt0]
    sub_blocks = [b.restrict(T.and_(self._notnull(b), *[
        T.eq(a, k) for a, k in zip(self._keyterms(b), ks)]))
                  for b in f._blocks]
    sub = f._with(sub_blocks)
    if self._single is not None:
      sub = sub[self._single]
    present = T.or_(*[T.exists(b.vars, b.cond) for b in sub_blocks])
    ctx = symctx.CTX
    ctx.path.append(present)
    depth = len(ctx.path)
    res = fn(sub)
    ren = {k: T.fresh('g', k.sort) for k in ks}
    if isinstance(res, SymNum) or is_scalar(res):
      c = lift(res).subst(ren)
      if len(ctx.path) != depth:
        raise Unsupported('apply() function branched on group data')
      ctx.path.pop()
      kv = [ren[k] for k in ks]
      return Series._make([Block(kv, T.subst(present, ren), kv, [c])],
                          self._keynames, self._single)
    raise Unsupported('apply() result %s' % type(res))

  def sample(self, **k):
    if self._single is not None or self._cols is not None:
      raise Unsupported('sample of columns')
    return sample(self._f, self._keynames, **k)

  @property
  def indices(self):
    return _GenDict(self)

  @property
  def groups(self):
    return _GenDict(self)

  def __iter__(self):
    for k, rows in _GenDict(self).items():
      yield k, rows.select(self._f)

  def __getattr__(self, n):
    if n.startswith('_'):
      raise AttributeError(n)
    raise Unsupported('groupby.%s' % n)


class Wide(object):
  """df.unstack(level): one column per (column label, level value)."""

  def __init__(self, frame, pos, series=False):
    self.frame, self.pos, self.series = frame, pos, series
    self.axis = 1

  def _split(self):
    f = self.frame
    keep = [i for i in range_(len(f._names)) if i != self.pos]
    return f, keep

  def _rowagg(self, fn, axis):
    if axis not in (1, 'columns'):
      raise Unsupported('column aggregate of an unstacked frame')
    f, keep = self._split()
    if len(f._columns) != 1:
      raise Unsupported('unstacked frame with several columns')
    # group the long frame by the remaining levels: skipna aggregates
    if not keep:
      raise Unsupported('unstack of a single level')
    g = GroupBy(f, None, [f._names[i] if f._names[i] is not None else i
                          for i in keep])
    r = g._reduce(fn)
    return Series._make(r._blocks, r._names, None)

  def count(self, axis=0):
    use('unstack().count(axis=1)')
    return self._rowagg(agg_count, axis)

  def std(self, axis=0, ddof=1):
    use('unstack().std(1)')
    return self._rowagg(lambda it: cell_fn('sqrt', agg_var(it, ddof)), axis)

  def var(self, axis=0, ddof=1):
    return self._rowagg(lambda it: agg_var(it, ddof), axis)

  def mean(self, axis=0):
    return self._rowagg(agg_mean, axis)

  def sum(self, axis=0):
    return self._rowagg(agg_sum, axis)

  @property
  def index(self):
    f, keep = self._split()
    bl = _group_blocks(f._blocks, [lambda b, i=i: b.idx[i] for i in keep])
    return _make_index(_Frame0(bl, [f._names[i] for i in keep]))

  def __getattr__(self, n):
    if n.startswith('_'):
      raise AttributeError(n)
    raise Unsupported('unstacked.%s' % n)


# ------------------------------------------------------------------ concat
def _wide_family(objs):
  """Side by side: the results of the iterations of a generic loop."""
  def fv(o):
    r = set()
    for b in o._blocks:
      r |= b.cond.fv
      for t in list(b.idx) + [x for c in b.cells for x in (c.null, c.val)]:
        r |= t.fv
    return r
  if not all(isinstance(o, _Rows) for o in objs):
    return None
  for own in symctx.CTX.loops:
    t1, t2 = [{k.term for k in gk} for gk in own.keys]
    f1, f2 = fv(objs[0]), fv(objs[1])
    if f1 & t1 and not f1 & t2 and f2 & t2 and not f2 & t1:
      o = objs[0]
      blocks = bind_generic(list(zip(own.keys, [x._blocks for x in objs])))
      cols = o._columns if isinstance(o, DataFrame) else [o.name]
      return Wide(DataFrame._make(
          blocks, [None] * len(own.sorts) + list(o._names), list(cols)), 0)
  return None


def concat(objs, axis=0, keys=None, names=None, sort=False, **kw):
  use('concat axis=%s' % axis)
  objs = list(objs)
  if kw.get('ignore_index') or set(kw) - {'ignore_index', 'join'}:
    raise Unsupported('concat options')
  if kw.get('join', 'outer') != 'outer':
    raise Unsupported('concat join')
  if keys is not None:
    keys = list(keys)
  objs2 = [o for o in objs if o is not None]
  if not objs2:
    raise ValueError('No objects to concatenate')
  if axis in (1, 'columns') and keys is None and len(objs) == 2:
    w = _wide_family(objs)
    if w is not None:
      return w
  if any(isinstance(o, Wide) for o in objs):
    if axis == 1 and len(objs) == 1 and keys is None:
      return objs[0]
    raise Unsupported('concat of unstacked frames')
  if axis in (1, 'columns'):
    fr = []
    for n, o in enumerate(objs):
      if isinstance(o, Series):
        fr.append(o.to_frame(o.name if o.name is not None else n))
      else:
        fr.append(o)
    acc = fr[0].copy()
    cols = [list(f._columns) for f in fr]
    allcols = list(cols[0])
    blocks = acc
    for f in fr[1:]:
      nm, al = align(DataFrame._make(blocks._blocks, blocks._names,
                                     list(range_(len(allcols)))),
                     DataFrame._make(f._blocks, f._names, f._columns))
      blocks = DataFrame._make([Block(v, c, i, list(c1) + list(c2), m)
                                for v, c, i, c1, c2, m in al], nm,
                               list(range_(len(allcols) + len(f._columns))))
      allcols = allcols + list(f._columns)
    colnames = list(fr[0]._colnames)
    if keys is not None:
      labs = []
      for k, o, f in zip(keys, objs, fr):
        for c in f._columns:
          if isinstance(o, Series):
            labs.append(k)
          else:
            labs.append((k,) + (c if isinstance(c, tuple) and
                                len(f._colnames) > 1 else (c,)))
      allcols = labs
      if isinstance(objs[0], Series):
        colnames = [names[0] if names else None]
      else:
        colnames = [names[0] if names else None] + list(fr[0]._colnames)
    elif len(fr) > 1 and any(f._colnames != colnames for f in fr):
      colnames = [None] * len(colnames)
    return DataFrame._make(blocks._blocks, blocks._names, allcols, colnames)
  # axis = 0
  allser = all(isinstance(o, Series) for o in objs)
  if not allser and any(isinstance(o, Series) for o in objs):
    raise Unsupported('concat mixed')
  gen = keys is not None and keys and any(
      isinstance(k, GenKey) or (isinstance(k, tuple) and any(
          isinstance(x, GenKey) for x in k)) for k in keys)
  inner = objs[0]._names
  for o in objs:
    if len(o._names) != len(inner):
      raise Unsupported('concat different index depth')
    if o._names != inner:
      inner = [None] * len(inner)
  if not allser:
    cols = list(objs[0]._columns)
    for o in objs:
      if list(o._columns) != cols:
        raise Unsupported('concat axis=0 with different columns')
  if gen:
    frames = []
    for k, o in zip(keys, objs):
      frames.append((k if isinstance(k, tuple) else (k,), o._blocks))
    blocks = bind_generic(frames)
    kn = names_of(names) if names is not None else [None] * len(frames[0][0])
    newnames = kn + list(inner)
  elif keys is not None:
    blocks = []
    nk = len(keys[0]) if isinstance(keys[0], tuple) else 1
    for k, o in zip(keys, objs):
      ts = [key_term(x) for x in (k if isinstance(k, tuple) else (k,))]
      for b in o._blocks:
        nb = b.copy()
        nb.idx = ts + list(b.idx)
        blocks.append(nb)
    kn = names_of(names) if names is not None else [None] * nk
    if len(kn) > nk:
      newnames = kn
    else:
      newnames = kn + list(inner)
  else:
    blocks = []
    for o in objs:
      blocks += [b.copy() for b in o._blocks]
    newnames = list(inner)
  if allser:
    nm = objs[0].name
    if any(o.name != nm for o in objs):
      nm = None
    return Series._make(blocks, newnames, nm)
  return DataFrame._make(blocks, newnames, cols, objs[0]._colnames)


# ------------------------------------------------------------------ query
def parse_query(s):
  import re
  back = {}

  def rep(m):
    n = '_bt_%d' % len(back)
    back[n] = m.group(1)
    return n

  s2 = re.sub(r'`([^`]*)`', rep, s)
  # DataFrame.query gives & and | the precedence of `and` and `or`
  s2 = ''.join(t if i % 2 else re.sub(r'&', ' and ', re.sub(
      r'\|', ' or ', t)) for i, t in enumerate(re.split(
          r"""('[^']*'|"[^"]*")""", s2)))
  try:
    e = ast.parse(s2.strip(), mode='eval').body
  except SyntaxError:
    raise Unsupported('query %r' % s)
  return e, back


def eval_query(pe, frame, block):
  e, back = pe

  def val(n):
    if isinstance(n, ast.Name):
      nm = back.get(n.id, n.id)
      if nm in frame._columns:
        return block.cells[frame._columns.index(nm)]
      if nm in frame._names:
        return Cell(T.FALSE, block.idx[frame._names.index(nm)])
      raise KeyError(nm)
    if isinstance(n, ast.Constant):
      return lift(n.value)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
      return cell_fn('neg', val(n.operand))
    if isinstance(n, ast.BinOp) and type(n.op) in (ast.Add, ast.Sub, ast.Mult,
                                                   ast.Div, ast.Pow):
      return cell_op({ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul',
                      ast.Div: 'div', ast.Pow: 'pow'}[type(n.op)],
                     val(n.left), val(n.right))
    if isinstance(n, (ast.Compare, ast.BoolOp)) or (
        isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitAnd, ast.BitOr))
    ) or isinstance(n, ast.UnaryOp):
      return Cell(T.FALSE, cond(n))
    raise Unsupported('query expression')

  def cond(n):
    if isinstance(n, ast.BoolOp):
      xs = [cond(v) for v in n.values]
      return T.and_(*xs) if isinstance(n.op, ast.And) else T.or_(*xs)
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitAnd, ast.BitOr)):
      # in DataFrame.query & and | have the precedence of and/or
      f = T.and_ if isinstance(n.op, ast.BitAnd) else T.or_
      return f(cond(n.left), cond(n.right))
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert)):
      return T.neg(cond(n.operand))
    if isinstance(n, ast.Compare):
      out = []
      left = n.left
      for op, right in zip(n.ops, n.comparators):
        if isinstance(op, (ast.In, ast.NotIn)) and isinstance(
            right, (ast.List, ast.Tuple)):
          l = val(left)
          c = T.and_(T.neg(l.null), T.or_(*[T.eq(l.val, val(x).val)
                                            for x in right.elts]))
          out.append(c if isinstance(op, ast.In) else T.neg(c))
        else:
          o = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge',
               ast.Eq: 'eq', ast.NotEq: 'ne'}.get(type(op))
          if o is None:
            raise Unsupported('query operator')
          out.append(cell_op(o, val(left), val(right)).val)
        left = right
      return T.and_(*out)
    if isinstance(n, (ast.Name, ast.Constant)):
      v = val(n)
      if v.val.sort != 'B':
        raise Unsupported('non-boolean query')
      return T.and_(T.neg(v.null), v.val)
    raise Unsupported('query expression %s' % ast.dump(n)[:60])

  return cond(e)


def isnull(v):
  if isinstance(v, (Series, DataFrame)):
    return v.isnull()
  if isinstance(v, SymNum):
    return SymBool(v.cell.null)
  if v is None or isinstance(v, float) and math.isnan(v):
    return True
  return False


isna = isnull


def notnull(v):
  r = isnull(v)
  return ~r if not isinstance(r, bool) else not r


notna = notnull


def merge(*a, **k):
  raise Unsupported('pd.merge')


class _Types(object):

  @staticmethod
  def is_numeric_dtype(x):
    raise Unsupported('is_numeric_dtype')


class _Api(object):
  types = _Types()


api = _Api()
NA = None
NaT = None
nan = float('nan')
__version__ = '2.3.3'


def table(name, cols):
  """The symbolic base table. cols: {name: 'num'|'num?'|'key'|'bool'}."""
  r = T.fresh('r', 'W')
  cells = []
  for c, kind in cols.items():
    if kind == 'key':
      cells.append(Cell(T.FALSE, T.app('col:%s:%s' % (name, c), (r,), 'K')))
    elif kind == 'bool':
      cells.append(Cell(T.FALSE, T.app('col:%s:%s' % (name, c), (r,), 'B')))
    elif kind == 'num?':
      cells.append(Cell(T.app('null:%s:%s' % (name, c), (r,), 'B'),
                        T.app('col:%s:%s' % (name, c), (r,), 'R')))
    else:
      cells.append(Cell(T.FALSE, T.app('col:%s:%s' % (name, c), (r,), 'R')))
  pres = T.app('in:%s' % name, (r,), 'B')
  return DataFrame._make([Block([r], T.TRUE, [r], cells)], [None], list(cols))
