"""Process set-up shared by the command line and its workers."""
import copy
import functools
import logging as _pylog
import os
import sys
import warnings

os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('XLA_FLAGS', '--xla_cpu_multi_thread_eigen=false')
for _k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
  os.environ.setdefault(_k, '1')
sys.dont_write_bytecode = True
warnings.filterwarnings('ignore')

REPO = os.environ.get('E3X_REPO', '/repo')
if REPO not in sys.path:
  sys.path.insert(0, REPO)


def setup():
  from absl import logging
  logging.set_verbosity(logging.FATAL)
  _pylog.disable(_pylog.CRITICAL)
  import e3x
  assert os.path.realpath(e3x.__file__).startswith(os.path.realpath(REPO)), e3x.__file__
  memoise_tables()
  return e3x


def memoise_tables():
  """Cache the lookup-table generators of e3x within this process.

  The tables are pure functions of max_degree (property C21); without the
  package's npz files they are regenerated with sympy on every call.
  """
  import importlib
  import pkgutil
  import e3x
  memo = {}
  done = {}
  for m in pkgutil.walk_packages(e3x.__path__, 'e3x.'):
    try:
      mod = importlib.import_module(m.name)
    except Exception:
      continue
    for name in list(vars(mod)):
      if name.startswith('_generate_') and name.endswith('_lookup_table'):
        f = getattr(mod, name)
        if not callable(f) or getattr(f, '_memo', False):
          continue
        if f not in done:
          def g(*args, _f=f, **kw):
            try:
              key = (_f, args, tuple(sorted(kw.items())))
              hash(key)
            except TypeError:
              return _f(*args, **kw)
            if key not in memo:
              memo[key] = _f(*args, **kw)
            return copy.deepcopy(memo[key])
          functools.update_wrapper(g, f)
          g._memo = True
          done[f] = g
        setattr(mod, name, done[f])
