"""Random draws as ghost state shared by a program and its specification.

Symbolically, the i-th draw is an uninterpreted function: the contract of
`sample(frac=1, replace=True)` gives every row (or unit) position of a slice
an arbitrary row (unit) of the same slice, that of Poisson weights an
arbitrary number of copies.  Concretely the draws of the real libraries are
recorded, checked against this contract and handed to the specification.
"""
import sys

N = [0]
LOG = []


class Unobserved(Exception):
  """The code draws in a way that is not recorded: no reference."""


def check_count(n):
  if N[0] == n:
    return
  if symbolic():
    raise ValueError('%d draws, expected %d' % (N[0], n))
  raise Unobserved()


def symbolic():
  return getattr(sys.modules.get('pandas'), 'Block', None) is not None


def reset(df=None, attempt=0):
  N[0] = 0
  del LOG[:]
  if not symbolic():
    _patch()
    import numpy as np
    import zlib
    np.random.seed(zlib.crc32(df.to_csv().encode()) + attempt)


def empty():
  """Some concrete weights are all 0."""
  return not symbolic() and any(
      hasattr(x, 'sum') and x.dtype.kind in 'iu' and not x.sum()
      for x in LOG if type(x).__name__ == 'ndarray')


def next_draw():
  N[0] += 1
  return N[0] - 1


def count():
  return N[0]


_patched = []


def _patch():
  if _patched:
    return
  _patched.append(1)
  import numpy as np
  import pandas as pd
  from pandas.core.groupby import GroupBy

  def rec(cls, owner):
    orig = cls.sample

    def sample(self, *a, **k):
      r = orig(self, *a, **k)
      LOG.append(r.copy())
      next_draw()
      return r

    setattr(cls, 'sample', sample)

  for c in (pd.DataFrame, GroupBy):
    if 'sample' in vars(c) or c is GroupBy:
      rec(c, c)
  if 'sample' not in vars(pd.DataFrame):
    rec(pd.core.generic.NDFrame, None)
  poisson = np.random.poisson

  def p(*a, **k):
    r = poisson(*a, **k)
    LOG.append(r)
    next_draw()
    return r

  np.random.poisson = p


def _sizes(df, keys):
  if not keys:
    return {(): len(df)}
  return {k if isinstance(k, tuple) else (k,): len(d)
          for k, d in df.groupby(keys, observed=True)}


def _contract(name, got, want):
  if got != want:
    raise ValueError('%s: drawn %s, slices have %s' % (name, got, want))


def _recorded(i):
  if i >= len(LOG):
    raise Unobserved()
  return LOG[i]


def rows(df, i, by=()):
  """The rows of draw i; each slice of `by` is drawn on its own."""
  by = list(by or ())
  if symbolic():
    return sys.modules['pandas'].drawn(df, i, by)
  r = _recorded(i)
  try:
    out = df.loc[r.index]
    for c in r.columns:
      if c in df and list(map(str, r[c])) != list(map(str, out[c])):
        raise Unobserved()
  except (KeyError, AttributeError, TypeError) as e:
    raise Unobserved() from e
  _contract('rows', _sizes(out, by), _sizes(df, by))
  return out.reset_index(drop=True)


def units(df, i, unit, by=()):
  """All rows of the units of draw i."""
  by = list(by or ())
  if symbolic():
    return sys.modules['pandas'].drawn_units(df, i, unit, by)
  import pandas as pd
  keys = by + [unit]
  r = _recorded(i)
  try:
    if r.index.names != [None]:
      if isinstance(r, pd.Series):
        r = r.to_frame()
      r = r.rename(columns=str).reset_index()
    sample = r[keys]
  except (KeyError, AttributeError, TypeError, ValueError) as e:
    raise Unobserved() from e
  _contract('units', _sizes(sample, by),
            _sizes(df[keys].dropna().drop_duplicates(), by))
  out = []
  for k in sample.itertuples(index=False):
    m = pd.Series(True, index=df.index)
    for c, v in zip(keys, k):
      m &= df[c] == v
    out.append(df[m])
  return pd.concat(out, ignore_index=True)


def weighted(df, i):
  """Every row as often as weight i says."""
  if symbolic():
    return sys.modules['pandas'].copies(df, i)
  import numpy as np
  w = _recorded(i)
  if getattr(w, 'shape', None) != (len(df),):
    raise Unobserved()
  return df.iloc[np.arange(len(df)).repeat(w)].reset_index(drop=True)
