"""Specification language: what a result is, as comprehensions over the table.

A specification never calls /repo.  It is built from the table's rows with
sums/counts/extrema over sets of rows, so the same text is (a) the
postcondition handed to the prover and (b), evaluated on a concrete table, the
oracle for replay on the real code.
"""
from engine import terms as T
from engine.facade import sympd
from engine.facade.sympd import Cell, SymBool, SymKey, SymNum


def wrap(cell):
  if cell.val.sort == 'B':
    return SymBool(cell.val)
  if cell.val.sort == 'K':
    return SymKey(cell.val)
  return SymNum(cell)


def cell(v):
  return sympd.lift(v)


class Row(object):
  """One row: attributes are the values of its columns."""

  def __init__(self, tab, r):
    self.__dict__['_tab'] = tab
    self.__dict__['_r'] = r

  def __getattr__(self, c):
    return self._tab.col(self._r, c)

  def __getitem__(self, c):
    return self._tab.col(self._r, c)

  def null(self, c):
    return SymBool(self._tab.col_cell(self._r, c).null)


class Tab(object):

  def __init__(self, schema, name='T'):
    self.schema, self.name = schema, name

  def col_cell(self, r, c):
    kind = self.schema[c]
    n = '%s:%s' % (self.name, c)
    if kind == 'key':
      return Cell(T.FALSE, T.app('col:' + n, (r,), 'K'))
    if kind == 'bool':
      return Cell(T.FALSE, T.app('col:' + n, (r,), 'B'))
    if kind == 'num?':
      return Cell(T.app('null:' + n, (r,), 'B'), T.app('col:' + n, (r,), 'R'))
    return Cell(T.FALSE, T.app('col:' + n, (r,), 'R'))

  def col(self, r, c):
    return wrap(self.col_cell(r, c))


class Rows(object):
  """A set of rows { r | cond(r) }."""

  def __init__(self, tab, cond=None, keys=None):
    self.tab = tab
    self.conds = [cond] if cond is not None else []
    self.keys = dict(keys or {})

  def where(self, *fns):
    n = Rows(self.tab, keys=self.keys)
    n.conds = list(self.conds) + list(fns)
    return n

  def at(self, **kv):
    """Rows whose key columns equal the given labels."""
    n = self.where(*[lambda r, c=c, v=v: r[c] == v for c, v in kv.items()])
    n.keys.update(kv)
    return n

  def excluding(self, **kv):
    return self.where(*[lambda r, c=c, v=v: ~(r[c] == v)
                        for c, v in kv.items()])

  def _cond(self, r):
    row = Row(self.tab, r)
    return T.and_(*[sympd.lift(f(row)).val for f in self.conds])

  def _parts(self, f):
    r = T.fresh('r', 'W')
    c = cell(f(Row(self.tab, r))) if callable(f) else (
        self.tab.col_cell(r, f) if isinstance(f, str) else cell(f))
    cond = T.and_(self._cond(r), T.neg(c.null))
    return r, cond, c.val

  def exists(self):
    r = T.fresh('r', 'W')
    return SymBool(T.exists([r], self._cond(r)))

  def sum(self, f):
    r, c, v = self._parts(f)
    return SymNum(Cell(T.FALSE, T.agg('sum', [r], c, sympd._asnum(v))))

  def count(self, f=None):
    r, c, _ = self._parts(f if f is not None else 1)
    return SymNum(Cell(T.FALSE, T.agg('sum', [r], c, T.ONE)))

  def mean(self, f):
    return self.sum(f) / self.count(f)

  def var(self, f, ddof=1):
    """Two-pass definition: mean squared deviation from the mean."""
    n, m = self.count(f), self.mean(f)
    m = SymNum(Cell(T.FALSE, m.cell.val))
    g = lambda r: (_val(r, f) - m)**2
    v = self.sum(g) / (n - ddof)
    return SymNum(Cell((n <= ddof).term, v.cell.val))

  def std(self, f, ddof=1):
    v = self.var(f, ddof)
    return SymNum(Cell(v.cell.null, T.sqrt(v.cell.val)))

  def ext(self, kind, f):
    r, c, v = self._parts(f)
    return SymNum(Cell(T.neg(T.exists([r], c)), T.agg(kind, [r], c, v)))

  def max(self, f):
    return self.ext('max', f)

  def min(self, f):
    return self.ext('min', f)

  def opaque(self, name, *fs):
    """Value of an uninterpreted function of the multiset of rows."""
    r = T.fresh('r', 'W')
    vals = [self.tab.col_cell(r, f).val for f in fs]
    c = self._cond(r)
    null = T.FALSE
    if name[0] == 'N':
      null = T.agg('bopq:null;' + name, [r], c, *vals)
    return SymNum(Cell(null, T.agg('opq:' + name, [r], c, *vals)))

  def nunique(self, f):
    r, c, v = self._parts(f)
    return SymNum(Cell(T.FALSE, T.agg('opq:nunique', [r], c, v)))

  def quantile(self, f, q, interp='linear'):
    r, c, v = self._parts(f)
    return SymNum(Cell(T.neg(T.exists([r], c)), T.agg(
        'opq:quantile;%s;%s' % (q, interp), [r], c, v)))

  def deletions(self, col):
    """For every label of col: these rows without those of the label."""
    return Deletions(self, (col,))

  # quantification over the labels present in these rows
  def labels(self, *cols):
    return Labels(self, cols)


class Labels(object):

  def __init__(self, rows, cols):
    self.rows, self.cols = rows, cols

  def _bind(self):
    ks = [T.fresh('k', 'K') for _ in self.cols]
    sub = self.rows.at(**{c: SymKey(k) for c, k in zip(self.cols, ks)})
    return ks, sub

  def _arg(self, ks, sub):
    return sub

  def sum(self, f, where=None):
    """Sum over the distinct labels of f(rows with that label)."""
    ks, sub = self._bind()
    arg = self._arg(ks, sub)
    c = cell(f(arg))
    cond = T.and_(sub.exists().term, T.neg(c.null),
                  where(arg).term if where else T.TRUE)
    return SymNum(Cell(T.FALSE, T.agg('sum', ks, cond, c.val)))

  def count(self, where=None):
    return self.sum(lambda s: 1, where)

  def opaque(self, name, *fs):
    """Uninterpreted function of the multiset of the labels' values."""
    ks, sub = self._bind()
    return SymNum(Cell(T.FALSE, T.agg('opq:' + name, ks, sub.exists().term,
                                      *[cell(f(sub)).val for f in fs])))

  def mean(self, f, where=None):
    n = self.sum(lambda s: notnull(f(s), 1), where)
    return self.sum(f, where) / n

  def std(self, f, ddof=1, where=None):
    n = self.sum(lambda s: notnull(f(s), 1), where)
    m = SymNum(Cell(T.FALSE, (self.sum(f, where) / n).cell.val))
    ss = self.sum(lambda s: (f(s) - m)**2, where)
    v = ss / (n - ddof)
    return SymNum(Cell((n <= ddof).term, T.sqrt(v.cell.val)))


class Deletions(Labels):

  def _arg(self, ks, sub):
    return self.rows.excluding(**{c: SymKey(k) for c, k in zip(self.cols, ks)})


def _val(r, f):
  return f(r) if callable(f) else r[f]


def val(x):
  """The value of x where it is defined (its nullness is stated elsewhere)."""
  return SymNum(Cell(T.FALSE, cell(x).val))


def notnull(x, v):
  """v where x is not null, null otherwise."""
  c = cell(x)
  d = cell(v)
  return SymNum(Cell(T.or_(c.null, d.null), d.val))


def given(c, x):
  """x where c holds, null otherwise."""
  k = cell(x)
  return SymNum(Cell(T.or_(T.neg(c.term), k.null), k.val))


def cond(c, a, b):
  c = c.term if isinstance(c, SymBool) else (T.boolean(c) if isinstance(
      c, bool) else c)
  return SymNum(sympd.ite_cell(c, cell(a), cell(b)))


def sqrt(x):
  return x._un('sqrt')


def fn(name, *xs):
  cs = [cell(x) for x in xs]
  return SymNum(Cell(T.or_(*[c.null for c in cs]), T.app(
      name, tuple(c.val for c in cs), 'R')))


def frame(rows, by, cols, present=None, colnames=None, key=None):
  """DataFrame indexed by `by`: one row per combination present in `rows`.

  cols: list of (label, fn(rows of the group) -> value).  With no `by`, the
  single row labelled 0.
  """
  by = [by] if isinstance(by, str) else list(by)
  ks = [T.fresh('k', 'K') for _ in by]
  g = rows.at(**{c: SymKey(k) for c, k in zip(by, ks)})
  pres = (present(g) if present else g.exists()).term if by else T.TRUE
  cells = [cell(f(g)) for _, f in cols]
  labels = [l for l, _ in cols]
  idx = list(ks) if by else [T.klit(0)]
  names = list(by) if by else [None]
  if colnames is None:
    colnames = [None] * (len(labels[0]) if isinstance(labels[0], tuple) else 1)
  return sympd.DataFrame._make([sympd.Block(ks, pres, idx, cells)], names,
                               labels, colnames)


def series(rows, by, name, f, present=None):
  d = frame(rows, by, [(name, f)], present)
  return sympd.Series._make(d._blocks, d._names, name)


def stack(parts, names, columns, colnames=None):
  """Union of literal-labelled pieces: [(prefix labels, frame)]."""
  blocks = []
  for labs, f in parts:
    for b in f._blocks:
      nb = b.copy()
      nb.idx = [x if isinstance(x, T.Term) else T.klit(x) for x in labs] + [
          i for i, n in zip(b.idx, f._names) if n is not None]
      blocks.append(nb)
  return sympd.DataFrame._make(blocks, names, columns, colnames)


NULL = SymNum(Cell(T.TRUE, T.ZERO))


def all_of(*bs):
  return SymBool(T.and_(*[cell(b).val for b in bs]))


def any_of(*bs):
  return SymBool(T.or_(*[cell(b).val for b in bs]))


def given_true(b):
  """b, false where it is undefined."""
  c = cell(b)
  return SymBool(T.and_(c.val, T.neg(c.null)))


def both(b, x):
  """b, where x is defined."""
  return SymBool(T.and_(cell(b).val, T.neg(cell(x).null)))


def missing(x):
  return SymBool(cell(x).null)


def some_rows(rows, n, f):
  """Whether n (not necessarily different) rows satisfy f(col, col, ...)."""
  rs = [T.fresh('r', 'W') for _ in range(n)]
  cols = [lambda name, r=r: SymKey(rows.tab.col_cell(r, name).val) for r in rs]
  return SymBool(T.exists(rs, T.and_(*[rows._cond(r) for r in rs],
                                     *[cell(c).val for c in f(*cols)])))
