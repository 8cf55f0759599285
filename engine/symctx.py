"""Path exploration context for symbolic execution by re-execution."""
from . import terms as T


class Unsupported(BaseException):
  """Construct outside the verifier's reach (never swallowed by repo code)."""


class Infeasible(BaseException):
  pass


class PathLimit(BaseException):
  pass


class Ctx(object):

  def __init__(self, prover, hyps=(), max_paths=64):
    self.prover = prover
    self.base_hyps = list(hyps)
    self.max_paths = max_paths
    self.log = []
    self.used_contracts = set()
    self.start([])

  def start(self, trace):
    self.trace = list(trace)
    self.pos = 0
    self.path = []
    self.pending = []
    self.loops = []

  @property
  def hyps(self):
    return self.base_hyps + self.path

  def branch(self, cond):
    """Decides a symbolic condition; forks when both sides are feasible."""
    if cond is T.TRUE:
      return True
    if cond is T.FALSE:
      return False
    if self.pos < len(self.trace):
      d = self.trace[self.pos]
      self.pos += 1
      self.path.append(cond if d else T.neg(cond))
      return d
    if self.prover.prove(self.hyps, cond):
      d = True
    elif self.prover.prove(self.hyps, T.neg(cond)):
      d = False
    else:
      d = True
      self.pending.append(self.trace[:self.pos] + [False])
    self.trace.append(d)
    self.pos += 1
    self.path.append(cond if d else T.neg(cond))
    return d


CTX = None


def set_ctx(c):
  global CTX
  CTX = c


def explore(ctx, fn):
  """Runs fn on every feasible path; yields (path condition, result)."""
  set_ctx(ctx)
  work = [[]]
  n = 0
  out = []
  while work:
    tr = work.pop()
    ctx.start(tr)
    n += 1
    if n > ctx.max_paths:
      raise PathLimit('more than %d paths' % ctx.max_paths)
    try:
      res = fn()
    except Infeasible:
      res = None
      work += ctx.pending
      continue
    work += ctx.pending
    out.append((list(ctx.path), res))
  return out
