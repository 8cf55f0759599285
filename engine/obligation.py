"""Obligations (contracts discharged by the prover) and bounded suites."""
import hashlib
import random
import time
import traceback

OBS = {}      # id -> Obligation
SUITES = {}   # id -> Suite


class Obligation(object):
  """A contract of real functions.

  impl(ms, df): runs the real code.  spec(rows, tab): what it must return
  (specification language), or spec2(ms, df): another use of the API it must
  agree with.  requires: [fn(Row) -> bool] precondition on every row.
  needs: [fn(Rows) -> bool] precondition on the table.
  """

  def __init__(self, id, prop, fns, schema, impl, spec=None, spec2=None,
               requires=(), needs=(), opts=None, gen=None, n=12, tol=1e-7,
               tier='quick', may_raise=None, deductive=True, opaque=None,
               max_paths=32, note='', max_rows=8):
    self.__dict__.update(locals())
    del self.__dict__['self']
    if id in OBS:
      raise ValueError('duplicate obligation ' + id)
    OBS[id] = self


class Suite(object):
  """Bounded executable contract over generated cases (never counted proved).

  run(ms, rng, i) checks case i; raises Mismatch.  Returns a short case tag
  (None: trivial).
  """

  def __init__(self, id, prop, fns, run, n=20, n_thorough=None, what='',
               chunk=None):
    self.__dict__.update(locals())
    del self.__dict__['self']
    if id in SUITES:
      raise ValueError('duplicate suite ' + id)
    SUITES[id] = self


def suite(id, prop, fns, n=20, n_thorough=None, what='', chunk=None):
  def deco(f):
    Suite(id, prop, fns, f, n, n_thorough, what or (f.__doc__ or '').strip(),
          chunk)
    return f
  return deco


class Mismatch(Exception):
  """A contract is violated on a concrete input of the real code."""

  def __init__(self, what, case=None, key=None):
    Exception.__init__(self, what)
    self.what, self.case, self.key = what, case, key


def rng_for(*parts):
  h = hashlib.sha256(repr(parts).encode()).digest()
  return random.Random(int.from_bytes(h[:8], 'big'))


# ------------------------------------------------------------------ tables
NUMS = [-3, -2, -1, -0.5, 0, 0.5, 1, 1, 2, 3, 4, 5, 7, 10, 12.25]
POS = [0.5, 1, 1, 2, 3, 4, 5, 7, 10, 12.25]
KEYS = ['a', 'b', 'c']


def gen_table(schema, rng, i, max_rows=8, pools=None):
  """Rows of a concrete table; the i-th tables are progressively larger."""
  pools = pools or {}
  n = rng.choice([1, 2, 3, 4, 5, 6, 8]) if i % 4 else rng.randint(
      4, max(4, max_rows))
  n = min(n, max_rows)
  rows = []
  for _ in range(n):
    r = {}
    for c, k in schema.items():
      p = pools.get(c)
      if k == 'key':
        r[c] = rng.choice(p or KEYS)
      elif k == 'bool':
        r[c] = rng.random() < 0.6
      elif k == 'num?':
        r[c] = None if rng.random() < 0.25 else rng.choice(p or NUMS)
      elif k == 'pos':
        r[c] = rng.choice(p or POS)
      else:
        r[c] = rng.choice(p or NUMS)
    rows.append(r)
  return rows


def to_df(schema, rows):
  import numpy as np
  import pandas as pd
  d = {}
  for c, k in schema.items():
    v = [r[c] for r in rows]
    if k == 'key':
      d[c] = pd.Series(v)
    elif k == 'bool':
      d[c] = pd.Series(v, dtype=bool)
    else:
      d[c] = pd.Series([np.nan if x is None else float(x) for x in v],
                       dtype=float)
  return pd.DataFrame(d)


def env_for(schema, rows, terms=None):
  from fractions import Fraction
  from engine import opaque
  from engine import terms as T
  rr = []
  dom = []
  for r in rows:
    d = {}
    for c, k in schema.items():
      v = r[c]
      if k == 'key':
        if v not in dom:
          dom.append(v)
      elif k != 'bool' and v is not None:
        v = Fraction(v).limit_denominator(10**6)
      d[c] = v
    rr.append(d)
  return T.Env({'T': rr}, dom or ['a'], opaque.UFS, opaque.OPAQUE)


def sym_schema(schema):
  return {c: ('num' if k == 'pos' else k) for c, k in schema.items()}


# ------------------------------------------------------------------ deductive
def run_impl(fn, *a):
  from engine.compare import Raised
  try:
    return fn(*a)
  except Exception as e:  # pylint: disable=broad-except
    return Raised(e)


def spec_result(ob, ms, df):
  from engine import spec as S
  if ob.spec2 is not None:
    return run_impl(ob.spec2, ms, df)
  tab = S.Tab(sym_schema(ob.schema))
  return ob.spec(S.Rows(tab))


def hyps_for(ob):
  """Precondition as terms: every row satisfies `requires`; table `needs`."""
  from engine import spec as S
  from engine import terms as T
  tab = S.Tab(sym_schema(ob.schema))
  out = []
  fs = list(ob.requires)
  for c, k in ob.schema.items():
    if k == 'pos':
      fs.append(lambda r, c=c: r[c] > 0)
  for f in fs:
    r = T.fresh('r', 'W')
    c = S.sympd.lift(f(S.Row(tab, r))).val
    out.append(T.neg(T.exists([r], T.neg(c))))
  for f in ob.needs:
    out.append(S.sympd.lift(f(S.Rows(tab))).val)
  # tables are not empty
  return out


def prove(ob, ms, deadline):
  """Symbolic execution of the real code + discharge. Returns a report."""
  from engine import compare, prover, symctx
  from engine import terms as T
  from engine.facade import sympd
  t0 = time.time()
  T.rewind()
  P = prover.Prover()
  hyps = hyps_for(ob)
  rep = {'id': ob.id, 'status': 'proved', 'goals': 0, 'failed': [],
         'paths': 0, 'contracts': []}
  ctx = symctx.Ctx(P, hyps, ob.max_paths)
  ctx.deadline = deadline

  def go():
    P.deadline = deadline
    df = sympd.table('T', sym_schema(ob.schema))
    a = run_impl(ob.impl, ms, df)
    b = spec_result(ob, ms, sympd.table('T', sym_schema(ob.schema)))
    return a, b

  lits = {'nums': set(), 'keys': set()}

  def harvest(t):
    for x in T.subterms(t, None, True):
      if x.op == 'num':
        v = float(x.args[0])
        lits['nums'] |= {v, v + 1, v - 1} if abs(v) < 1e6 else set()
      elif x.op == 'klit':
        lits['keys'].add(x.args[0])

  try:
    if not P.consistent(hyps):
      rep['status'] = 'vacuous'
      return rep
    live = 0
    for path, (a, b) in symctx.explore(ctx, go):
      ctx.path = list(path)
      h0 = list(hyps) + list(path)
      rep['paths'] += 1
      if not P.consistent(h0):
        continue
      if isinstance(b, compare.Raised) and (ob.opts or {}).get('sql'):
        continue  # outside the domain of the metric
      live += 1
      if isinstance(a, compare.Raised) and ob.may_raise and not isinstance(
          b, compare.Raised):
        from engine import spec as S
        cond = ob.may_raise(a.kind, S.Rows(S.Tab(sym_schema(ob.schema))))
        c = sympd.lift(cond).val
        rep['goals'] += 1
        if not P.prove(h0, c):
          rep['failed'].append({'goal': 'raises only when allowed: %r' % a,
                                'detail': str(path)[:400]})
        continue
      if isinstance(a, compare.Raised) and a.kind not in ('KeyError',
                                                          'ValueError'):
        rep['raise'] = ''.join(traceback.format_exception(a.exc)[-4:])[-900:]
        if not (isinstance(b, compare.Raised) and b.kind == a.kind) and (
            ob.may_raise is None):
          # e.g. a pandas feature the contract layer lacks; if the real code
          # raises as well, the replay on real pandas reports it
          raise symctx.Unsupported('raises %s: %s' % (a.kind, a.exc))
      try:
        for nm, h, g in compare.obligations(a, b, ob.opts or {}):
          rep['goals'] += 1
          if not P.prove(h0 + h, g):
            harvest(T.and_(g, *(path + h)))
            rep['failed'].append({'goal': nm, 'detail': 'not proved: %s' % (
                str(g)[:700])})
      except compare.Structural as e:
        rep['goals'] += 1
        rep['failed'].append({'goal': 'shape', 'detail': str(e)})
    if not live or not rep['goals']:
      rep['status'] = 'vacuous'
    elif rep['failed']:
      rep['status'] = 'failed'
  except symctx.Unsupported as e:
    rep['status'] = 'unsupported'
    tb = traceback.extract_tb(e.__traceback__)
    repo = [f for f in tb if f.filename.startswith(_repo())]
    rep['detail'] = '%s at %s' % (e, '%s:%d %s' % (
        repo[-1].filename, repo[-1].lineno, repo[-1].name) if repo else '?')
  except symctx.PathLimit as e:
    rep['status'] = 'unsupported'
    rep['detail'] = str(e)
  except (TimeoutError, prover.Deadline):
    rep['status'] = 'timeout'
  except (Exception, symctx.Infeasible) as e:  # pylint: disable=broad-except
    rep['status'] = 'error'
    rep['detail'] = ''.join(traceback.format_exception(e)[-6:])[-1500:]
  finally:
    rep['lits'] = {k: sorted(v, key=str)[:30] for k, v in lits.items()}
    rep['contracts'] = sorted(ctx.used_contracts)
    rep['rules'] = sorted(P.rules)
    rep['z3'] = dict(P.stats.__dict__)
    rep['wall'] = round(time.time() - t0, 3)
  return rep


def _repo():
  from engine import load
  return load.REPO


# ------------------------------------------------------------------ concrete
def concrete(ob, ms, seed, n, pools=None):
  """Runs the real code on concrete tables against the evaluated spec."""
  from engine import compare, symctx
  from engine import terms as T
  rep = {'id': ob.id, 'cases': 0, 'nontrivial': 0, 'samples': []}
  hyps = hyps_for(ob)
  seen = set()
  for i in range(n * 6):
    if rep['cases'] >= n:
      break
    rng = rng_for('ob', ob.id, seed, i)
    gen = ob.gen or (lambda rng, i: gen_table(ob.schema, rng, i, ob.max_rows,
                                              pools))
    rows = gen(rng, i)
    if rows is None:
      continue
    k = repr(rows)
    if k in seen:
      continue
    seen.add(k)
    d = check_table(ob, ms, rows, hyps)
    if d is SKIP:
      continue
    rep['cases'] += 1
    got, why = d
    if got and got.get('rows') if isinstance(got, dict) else got:
      rep['nontrivial'] += 1
      if len(rep['samples']) < 1:
        rep['samples'].append({'table': rows, 'result': str(got)[:300]})
    if why:
      raise Mismatch(why, {'obligation': ob.id, 'table': rows,
                           'observed': str(got)[:1500]})
  return rep


SKIP = object()


def check_table(ob, ms, rows, hyps=None):
  from engine import compare
  from engine import terms as T
  env = env_for(ob.schema, rows)
  hyps = hyps_for(ob) if hyps is None else hyps
  if not all(T.ev(h, env, {}) for h in hyps):
    return SKIP
  df = to_df(ob.schema, rows)
  real = run_impl(ob.impl, ms, df)
  got = compare.from_real(real)
  if ob.spec2 is not None:
    want = run_impl(ob.spec2, ms, to_df(ob.schema, rows))
    if isinstance(want, compare.Raised) and want.kind == 'Unobserved':
      return SKIP
    want = compare.from_real(want)
    sp = None
    if ob.opts and ob.opts.get('sql') and (
        isinstance(real, compare.Raised) and real.kind == 'SqlUnsupported' or
        want['kind'] == 'raises' or any(
            isinstance(v, float) and abs(v) == float('inf')
            for _, vs in want['rows'] for v in vs)):
      return SKIP
  else:
    sp = spec_result(ob, ms, None)
    if isinstance(real, compare.Raised) and ob.may_raise:
      from engine import spec as S
      from engine.facade import sympd
      c = ob.may_raise(real.kind, S.Rows(S.Tab(sym_schema(ob.schema))))
      if T.ev(sympd.lift(c).val, env, {}):
        return got, None
    want = compare.materialize(sp, env)
  opts = (ob.opts or {}).get('concrete', ob.opts)
  why = compare.diff(got, want, opts, ob.tol)
  if why and isinstance(real, compare.Raised):
    why += ' (%s)' % (str(real.exc)[:200],)
  return got, why
