"""Loads the real google/meterstick modules from /repo's working tree.

symbolic=True puts the contract layer (engine.facade.sympd) in place of pandas
before the import; the source text of /repo is executed unmodified either way.
"""
import importlib.util
import os
import sys
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True


def _package():
  spec = importlib.util.spec_from_file_location(
      'meterstick', os.path.join(REPO, '__init__.py'),
      submodule_search_locations=[REPO])
  m = importlib.util.module_from_spec(spec)
  sys.modules['meterstick'] = m
  spec.loader.exec_module(m)
  return m


class _Stub(types.ModuleType):

  def __getattr__(self, n):
    if n.startswith('__'):
      raise AttributeError(n)
    from engine.symctx import Unsupported

    def f(*a, **k):
      raise Unsupported('external %s.%s' % (self.__name__, n))

    return f


def load(symbolic=False):
  if symbolic:
    import numpy  # noqa: F401  real numpy, before pandas is replaced
    import scipy.stats  # noqa: F401
    from engine.facade import sympd
    sys.modules['pandas'] = sympd
    for n in ('sklearn', 'sklearn.linear_model', 'IPython', 'IPython.display'):
      sys.modules[n] = _Stub(n)
    sys.modules['sklearn'].linear_model = sys.modules['sklearn.linear_model']
    from engine.facade import symlm
    for n in ('LinearRegression', 'Ridge', 'Lasso', 'ElasticNet'):
      setattr(sys.modules['sklearn.linear_model'], n, getattr(symlm, n))
    sys.modules['IPython'].display = sys.modules['IPython.display']
  m = _package()
  if symbolic:
    from engine.facade import symstats
    m.operations.stats = symstats
    m.operations.np = sympd.Numpy()
    # len() must return an int: tables have a symbolic number of rows
    for mod in list(vars(m).values()):
      if isinstance(mod, types.ModuleType) and getattr(
          mod, '__name__', '').startswith('meterstick.'):
        mod.len = sympd.length
  return m
