"""Parser for the query text /repo generates (BigQuery standard SQL subset).

AST: tuples.  Unknown syntax raises SqlError: text that is not a well-formed
query is a violation of the nesting property, not something to skip.
"""
import re


class SqlError(Exception):
  """The text is not a valid query (syntax, names, aggregation)."""


class SqlUnsupported(Exception):
  """Valid SQL outside the evaluator's subset."""


_TOK = re.compile(r'''
  (?P<ws>\s+|--[^\n]*)
 |(?P<num>0[xX][0-9a-fA-F]+|(\d+\.\d*|\.\d+|\d+)([eE][-+]?\d+)?)
 |(?P<str>"(\\.|[^"\\])*"|'(\\.|[^'\\])*')
 |(?P<bt>`[^`]*`)
 |(?P<id>[A-Za-z_][A-Za-z0-9_]*)
 |(?P<op>!=|<>|<=|>=|\|\||[-+*/(),.<>=\[\];])
''', re.X)

KEYWORDS = set('''WITH AS SELECT DISTINCT FROM JOIN LEFT RIGHT FULL CROSS INNER
OUTER ON USING WHERE GROUP BY ORDER HAVING LIMIT AND OR NOT IS NULL BETWEEN IN
CASE WHEN THEN ELSE END CAST OVER PARTITION ROWS UNBOUNDED PRECEDING CURRENT
ROW IGNORE NULLS DESC ASC EXCEPT UNION ALL UNNEST LIKE TRUE FALSE FOLLOWING
RESPECT IF'''.split())
# words that may still be names when they are not in keyword position
SOFT = {'IF', 'ROW', 'CURRENT', 'PRECEDING', 'UNBOUNDED', 'FOLLOWING', 'LEFT',
        'RIGHT', 'END'}


def tokenize(s):
  out, i = [], 0
  while i < len(s):
    m = _TOK.match(s, i)
    if not m:
      raise SqlError('bad character %r at ...%s' % (s[i], s[max(0, i - 30):i +
                                                           20]))
    i = m.end()
    k = m.lastgroup
    t = m.group()
    # lastgroup may name an inner group; recompute
    for k in ('ws', 'num', 'str', 'bt', 'id', 'op'):
      if m.group(k) is not None:
        break
    if k == 'ws':
      continue
    if k == 'num' and i < len(s) and (s[i].isalpha() or s[i] == '_'):
      raise SqlError('bad number at %s' % s[max(0, i - 10):i + 10])
    if k == 'id' and t.upper() in KEYWORDS:
      out.append(('kw', t.upper(), t))
    elif k == 'str':
      body = t[1:-1]
      body = re.sub(r'\\(.)', lambda m: {'n': '\n', 't': '\t'}.get(
          m.group(1), m.group(1)), body)
      out.append(('str', body, t))
    elif k == 'bt':
      out.append(('id', t[1:-1], t))
    else:
      out.append((k, t, t))
  out.append(('eof', '', ''))
  return out


class Parser(object):

  def __init__(self, text):
    self.t = tokenize(text)
    self.i = 0

  # ---- helpers
  def peek(self, k=0):
    return self.t[min(self.i + k, len(self.t) - 1)]

  def kw(self, *ws):
    """Consumes the keywords if all are next."""
    for j, w in enumerate(ws):
      p = self.peek(j)
      if p[0] != 'kw' or p[1] != w:
        return False
    self.i += len(ws)
    return True

  def iskw(self, *ws):
    p = self.peek()
    return p[0] == 'kw' and p[1] in ws

  def op(self, o):
    p = self.peek()
    if p[0] == 'op' and p[1] == o:
      self.i += 1
      return True
    return False

  def need(self, ok, what):
    if not ok:
      raise SqlError('expected %s near ...%s' % (what, ' '.join(
          x[2] for x in self.t[max(0, self.i - 8):self.i + 6])))
    return ok

  def name(self):
    p = self.peek()
    if p[0] == 'id' or (p[0] == 'kw' and p[1] in SOFT):
      self.i += 1
      return p[1] if p[0] == 'id' else p[2]
    self.need(False, 'a name')

  # ---- queries
  def parse(self):
    q = self.query()
    self.op(';')
    self.need(self.peek()[0] == 'eof', 'end of query')
    return q

  def query(self):
    ctes = []
    if self.kw('WITH'):
      while True:
        n = self.name()
        self.need(self.kw('AS'), 'AS')
        self.need(self.op('('), '(')
        ctes.append((n, self.query()))
        self.need(self.op(')'), ')')
        if not self.op(','):
          break
    q = self.select()
    return ('query', ctes, q)

  def select(self):
    if self.op('('):
      q = self.query()
      self.need(self.op(')'), ')')
      return ('paren', q)
    self.need(self.kw('SELECT'), 'SELECT')
    distinct = self.kw('DISTINCT')
    items = [self.item()]
    while self.op(','):
      items.append(self.item())
    frm = None
    if self.kw('FROM'):
      frm = self.from_()
    where = self.expr() if self.kw('WHERE') else None
    group = None
    if self.kw('GROUP', 'BY'):
      group = [self.expr()]
      while self.op(','):
        group.append(self.expr())
    having = self.expr() if self.kw('HAVING') else None
    order = None
    if self.kw('ORDER', 'BY'):
      order = self.order_items()
    limit = self.expr() if self.kw('LIMIT') else None
    return ('select', distinct, items, frm, where, group, having, order, limit)

  def order_items(self):
    out = []
    while True:
      e = self.expr()
      d = self.kw('DESC')
      if not d:
        self.kw('ASC')
      out.append((e, d))
      if not self.op(','):
        return out

  def item(self):
    if self.op('*'):
      return ('star', None, self.except_())
    if self.peek()[0] == 'id' and self.peek(1)[1] == '.' and (
        self.peek(2)[1] == '*' and self.peek(2)[0] == 'op'):
      q = self.name()
      self.i += 2
      return ('star', q, self.except_())
    e = self.expr()
    a = None
    if self.kw('AS'):
      a = self.name()
    elif self.peek()[0] == 'id':
      a = self.name()
    return ('item', e, a)

  def except_(self):
    if self.kw('EXCEPT'):
      self.need(self.op('('), '(')
      ns = [self.name()]
      while self.op(','):
        ns.append(self.name())
      self.need(self.op(')'), ')')
      return ns
    return []

  def from_(self):
    left = self.source()
    while True:
      if self.op(','):
        left = ('join', 'CROSS', left, self.source(), None, None)
        continue
      kind = None
      save = self.i
      if self.kw('CROSS', 'JOIN'):
        kind = 'CROSS'
      elif self.kw('INNER', 'JOIN') or self.kw('JOIN'):
        kind = 'INNER'
      else:
        for k in ('LEFT', 'RIGHT', 'FULL'):
          if self.kw(k):
            self.kw('OUTER')
            self.need(self.kw('JOIN'), 'JOIN')
            kind = k
            break
      if kind is None:
        self.i = save
        return left
      right = self.source()
      on = using = None
      if self.kw('ON'):
        on = self.expr()
      elif self.kw('USING'):
        self.need(self.op('('), '(')
        using = [self.name()]
        while self.op(','):
          using.append(self.name())
        self.need(self.op(')'), ')')
      left = ('join', kind, left, right, on, using)

  def source(self):
    if self.kw('UNNEST'):
      self.need(self.op('('), '(')
      e = self.expr()
      self.need(self.op(')'), ')')
      return ('unnest', e, self.alias())
    if self.op('('):
      if self.iskw('SELECT', 'WITH') or (self.peek()[1] == '(' and
                                         self.peek()[0] == 'op'):
        q = self.query()
        self.need(self.op(')'), ')')
        return ('sub', q, self.alias())
      f = self.from_()
      self.need(self.op(')'), ')')
      return f
    n = self.name()
    while self.op('.'):
      n += '.' + self.name()
    return ('table', n, self.alias())

  def alias(self):
    if self.kw('AS'):
      return self.name()
    if self.peek()[0] == 'id':
      return self.name()
    return None

  # ---- expressions
  def expr(self):
    e = self.and_()
    while self.kw('OR'):
      e = ('or', e, self.and_())
    return e

  def and_(self):
    e = self.not_()
    while self.kw('AND'):
      e = ('and', e, self.not_())
    return e

  def not_(self):
    if self.kw('NOT'):
      return ('not', self.not_())
    return self.cmp()

  def cmp(self):
    e = self.add()
    p = self.peek()
    if p[0] == 'op' and p[1] in ('=', '!=', '<>', '<', '<=', '>', '>='):
      self.i += 1
      o = {'<>': '!='}.get(p[1], p[1])
      r = ('cmp', o, e, self.add())
      q = self.peek()
      self.need(not (q[0] == 'op' and q[1] in ('=', '!=', '<>', '<', '<=', '>',
                                               '>=')),
                'no chained comparison')
      return r
    if self.kw('IS'):
      n = self.kw('NOT')
      if self.kw('NULL'):
        r = ('isnull', e)
      else:
        t = self.kw('TRUE')
        self.need(t or self.kw('FALSE'), 'NULL or a truth value')
        r = ('is', e, t)
      return ('not', r) if n else r
    save = self.i
    n = self.kw('NOT')
    if self.kw('BETWEEN'):
      a = self.add()
      self.need(self.kw('AND'), 'AND')
      r = ('and', ('cmp', '>=', e, a), ('cmp', '<=', e, self.add()))
      return ('not', r) if n else r
    if self.kw('IN'):
      self.need(self.op('('), '(')
      xs = [self.expr()]
      while self.op(','):
        xs.append(self.expr())
      self.need(self.op(')'), ')')
      r = ('cmp', '=', e, xs[0])
      for x in xs[1:]:
        r = ('or', r, ('cmp', '=', e, x))
      return ('not', r) if n else r
    self.i = save
    return e

  def add(self):
    e = self.mul()
    while True:
      if self.op('+'):
        e = ('bin', '+', e, self.mul())
      elif self.op('-'):
        e = ('bin', '-', e, self.mul())
      else:
        return e

  def mul(self):
    e = self.unary()
    while True:
      if self.op('*'):
        e = ('bin', '*', e, self.unary())
      elif self.op('/'):
        e = ('bin', '/', e, self.unary())
      else:
        return e

  def unary(self):
    if self.op('-'):
      return ('neg', self.unary())
    if self.op('+'):
      return self.unary()
    return self.postfix(self.primary())

  def postfix(self, e):
    while self.op('['):
      p = self.name().upper()
      self.need(p in ('OFFSET', 'SAFE_OFFSET', 'ORDINAL', 'SAFE_ORDINAL'),
                'OFFSET')
      self.need(self.op('('), '(')
      i = self.expr()
      self.need(self.op(')'), ')')
      self.need(self.op(']'), ']')
      e = ('sub', p, e, i)
    return e

  def primary(self):
    p = self.peek()
    if p[0] == 'num':
      self.i += 1
      return ('num', p[1])
    if p[0] == 'str':
      self.i += 1
      return ('str', p[1])
    if self.kw('NULL'):
      return ('null',)
    if self.kw('TRUE'):
      return ('bool', True)
    if self.kw('FALSE'):
      return ('bool', False)
    if self.iskw('CASE'):
      return self.case()
    if self.kw('CAST'):
      self.need(self.op('('), '(')
      e = self.expr()
      self.need(self.kw('AS'), 'AS')
      t = self.name().upper()
      self.need(self.op(')'), ')')
      return ('cast', e, t)
    if self.op('('):
      if self.iskw('SELECT', 'WITH'):
        q = self.query()
        self.need(self.op(')'), ')')
        return ('scalar', q)
      e = self.expr()
      self.need(self.op(')'), ')')
      return e
    n = self.name()
    path = [n]
    while self.peek()[1] == '.' and self.peek()[0] == 'op':
      self.i += 1
      path.append(self.name())
    if self.peek()[0] == 'op' and self.peek()[1] == '(':
      return self.call('.'.join(path).upper())
    self.need(len(path) <= 2, 'a column')
    return ('col', path[0] if len(path) == 2 else None, path[-1])

  def case(self):
    self.need(self.kw('CASE'), 'CASE')
    base = None
    if not self.iskw('WHEN'):
      base = self.expr()
    ws = []
    while self.kw('WHEN'):
      c = self.expr()
      if base is not None:
        c = ('cmp', '=', base, c)
      self.need(self.kw('THEN'), 'THEN')
      ws.append((c, self.expr()))
    self.need(ws, 'WHEN')
    els = self.expr() if self.kw('ELSE') else ('null',)
    self.need(self.kw('END'), 'END')
    for c, v in reversed(ws):
      els = ('call', 'IF', (c, v, els), None)
    return els

  def call(self, fn):
    self.need(self.op('('), '(')
    opts = {}
    args = []
    if self.op('*'):
      args = [('star',)]
    elif not (self.peek()[0] == 'op' and self.peek()[1] == ')'):
      if self.kw('DISTINCT'):
        opts['distinct'] = True
      args.append(self.expr())
      while self.op(','):
        args.append(self.expr())
      if self.kw('IGNORE', 'NULLS'):
        opts['ignore_nulls'] = True
      self.kw('RESPECT', 'NULLS')
      if self.kw('ORDER', 'BY'):
        opts['order'] = self.order_items()
      if self.kw('LIMIT'):
        opts['limit'] = self.expr()
    self.need(self.op(')'), ')')
    e = ('call', fn, tuple(args), _freeze(opts))
    if self.kw('OVER'):
      self.need(self.op('('), '(')
      part, order, frame = [], None, None
      if self.kw('PARTITION', 'BY'):
        part.append(self.expr())
        while self.op(','):
          part.append(self.expr())
      if self.kw('ORDER', 'BY'):
        order = self.order_items()
      if self.kw('ROWS'):
        self.need(self.kw('BETWEEN'), 'BETWEEN')
        lo = self.bound()
        self.need(self.kw('AND'), 'AND')
        hi = self.bound()
        frame = (lo, hi)
      self.need(self.op(')'), ')')
      return ('win', e, tuple(part), tuple(order) if order else None, frame)
    return e

  def bound(self):
    if self.kw('UNBOUNDED', 'PRECEDING'):
      return 'UP'
    if self.kw('UNBOUNDED', 'FOLLOWING'):
      return 'UF'
    if self.kw('CURRENT', 'ROW'):
      return 'CUR'
    self.need(False, 'a frame bound')


def _freeze(o):
  return tuple(sorted((k, tuple(v) if isinstance(v, list) else v)
                      for k, v in o.items()))


def parse(text):
  return Parser(text).parse()


AGGS = {'SUM', 'COUNT', 'AVG', 'MAX', 'MIN', 'VAR_SAMP', 'VAR_POP', 'STDDEV_SAMP',
        'STDDEV_POP', 'COVAR_SAMP', 'COVAR_POP', 'CORR', 'APPROX_QUANTILES',
        'ARRAY_AGG', 'COUNTIF', 'ANY_VALUE', 'VARIANCE', 'STDDEV'}


def has_agg(e):
  """Whether e contains an aggregate call (outside windows and subqueries)."""
  if not isinstance(e, tuple):
    return False
  if e and e[0] in ('win', 'scalar', 'query'):
    return False
  if e and e[0] == 'call' and e[1] in AGGS:
    return True
  return any(has_agg(x) for x in e if isinstance(x, tuple))


def has_win(e):
  if not isinstance(e, tuple):
    return False
  if e and e[0] == 'win':
    return True
  if e and e[0] in ('scalar', 'query'):
    return False
  return any(has_win(x) for x in e if isinstance(x, tuple))


def has_col(e):
  if not isinstance(e, (tuple, list)):
    return False
  if e and e[0] == 'col':
    return True
  return any(has_col(x) for x in e)
