"""Path exploration of plain python code with symbolic integers (z3).

The real function is executed once per feasible path; every branch on a
symbolic value asks z3 which outcomes are possible under the path condition.
"""
from __future__ import annotations

import contextlib
import math
import time

import numpy as np

from . import solve
from .poly import Unsupported
z3 = solve.z3

CUR = None


class DeadPath(Exception):
  pass


class Path:

  def __init__(self, base, script, max_concrete):
    self.s = z3.Solver()
    self.s.set('timeout', 10000)
    self.s.add(base)
    self.pc = []
    self.script = script
    self.log = []
    self.fresh = 0
    self.max_concrete = max_concrete

  def add(self, c):
    self.pc.append(c)
    self.s.add(c)

  def branch(self, c):
    """Decide a z3 Bool; forks when both outcomes are feasible."""
    c = z3.simplify(c)
    if z3.is_true(c):
      return True
    if z3.is_false(c):
      return False
    k = len(self.log)
    if k < len(self.script):
      d = self.script[k]
      self.log.append((d, False))
      self.add(c if d else z3.Not(c))
      return d
    self.s.push()
    self.s.add(c)
    t = solve.check(self.s)
    self.s.pop()
    if t == 'unsat':
      self.log.append((False, False))
      self.add(z3.Not(c))
      return False
    self.s.push()
    self.s.add(z3.Not(c))
    f = solve.check(self.s)
    self.s.pop()
    if f == 'unsat':
      self.log.append((True, False))
      self.add(c)
      return True
    self.log.append((True, True))
    self.add(c)
    return True

  def concretise(self, e):
    """Fork over the feasible values of an integer expression."""
    for _ in range(self.max_concrete):
      k = len(self.log)
      if k < len(self.script):
        d = self.script[k]
        # scripted entries for values carry the value
        v, taken = d
        self.log.append((d, False))
        self.add(e == v if taken else e != v)
        if taken:
          return v
        continue
      r = solve.check(self.s)
      if r == 'unsat':
        raise DeadPath
      if r != 'sat':
        raise Unsupported('no feasible value found')
      m = self.s.model()
      v = m.eval(e, model_completion=True)
      v = v.as_long() if z3.is_int_value(v) else float(v.as_fraction())
      self.log.append(((v, True), True))
      self.add(e == v)
      return v
    raise Unsupported('too many concrete values')


class Sym:
  """Symbolic integer or real."""
  __array_priority__ = 1000

  def __init__(self, e, kind='int'):
    self.e = e
    self.kind = kind

  def _lift(self, o):
    if isinstance(o, Sym):
      return o
    if isinstance(o, (bool, np.bool_)):
      o = int(o)
    if isinstance(o, (int, np.integer)):
      return Sym(z3.IntVal(int(o)))
    if isinstance(o, (float, np.floating)):
      if o != o or o in (math.inf, -math.inf):
        return float(o)
      return Sym(solve.rv(float(o)), 'real')
    return None

  def _pair(self, o):
    o = self._lift(o)
    if o is None or isinstance(o, float):
      return o
    a, b = self, o
    if a.kind != b.kind:
      a = Sym(z3.ToReal(a.e), 'real') if a.kind == 'int' else a
      b = Sym(z3.ToReal(b.e), 'real') if b.kind == 'int' else b
    return a, b

  def _bin(self, o, f, swap=False):
    if isinstance(o, np.ndarray):
      r = np.empty(o.shape, dtype=object)
      for i in np.ndindex(*o.shape):
        r[i] = self._bin(o[i], f, swap)
      return r
    p = self._pair(o)
    if p is None:
      return NotImplemented
    if isinstance(p, float):
      return p
    a, b = p
    if swap:
      a, b = b, a
    return Sym(f(a.e, b.e), a.kind)

  def __add__(self, o): return self._bin(o, lambda a, b: a + b)
  __radd__ = __add__
  def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
  def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
  def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
  __rmul__ = __mul__
  def __neg__(self): return Sym(-self.e, self.kind)
  def __pos__(self): return self
  def __abs__(self): return Sym(z3.If(self.e >= 0, self.e, -self.e), self.kind)

  def __pow__(self, n):
    if isinstance(n, (int, np.integer)) and 0 <= n <= 8:
      r = Sym(z3.IntVal(1)) if self.kind == 'int' else Sym(z3.RealVal(1), 'real')
      for _ in range(int(n)):
        r = r * self
      return r
    if n == 0.5:
      return sym_sqrt(self)
    return NotImplemented

  def __floordiv__(self, o):
    if self.kind == 'int' and isinstance(o, (int, np.integer)) and o > 0:
      return Sym(self.e / int(o))
    return NotImplemented

  def __mod__(self, o):
    if self.kind == 'int' and isinstance(o, (int, np.integer)) and o > 0:
      return Sym(self.e % int(o))
    return NotImplemented

  def __truediv__(self, o):
    if isinstance(o, (int, float, np.number)) and o:
      return Sym((z3.ToReal(self.e) if self.kind == 'int' else self.e) / solve.rv(float(o)), 'real')
    return NotImplemented

  def _cmp(self, o, f, inf):
    if isinstance(o, np.ndarray):
      r = np.empty(o.shape, dtype=object)
      for i in np.ndindex(*o.shape):
        r[i] = self._cmp(o[i], f, inf)
      return r
    p = self._pair(o)
    if p is None:
      return NotImplemented
    if isinstance(p, float):
      return inf(p)
    a, b = p
    return SymBool(f(a.e, b.e))

  def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, lambda v: v > 0)
  def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, lambda v: v > 0)
  def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, lambda v: v < 0)
  def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, lambda v: v < 0)

  def __eq__(self, o):
    if o is self:
      return True
    r = self._cmp(o, lambda a, b: a == b, lambda v: False)
    return False if r is NotImplemented else r

  def __ne__(self, o):
    if o is self:
      return False
    r = self._cmp(o, lambda a, b: a != b, lambda v: True)
    return True if r is NotImplemented else r

  __hash__ = None

  def __bool__(self):
    return CUR.branch(self.e != 0)

  def __index__(self):
    if self.kind != 'int':
      raise TypeError('not an integer')
    return CUR.concretise(self.e)

  def __int__(self):
    if self.kind == 'int':
      return CUR.concretise(self.e)
    return int(math.trunc(float(self)))

  def __float__(self):
    if self.kind == 'int':
      return float(CUR.concretise(self.e))
    raise Unsupported('float of a symbolic real')

  def _fresh(self):
    CUR.fresh += 1
    return CUR.fresh

  def __floor__(self):
    return self if self.kind == 'int' else Sym(z3.ToInt(self.e))

  def __ceil__(self):
    return self if self.kind == 'int' else Sym(-z3.ToInt(-self.e))

  def __trunc__(self):
    if self.kind == 'int':
      return self
    return Sym(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

  def __round__(self, nd=None):
    if self.kind == 'int':
      return self
    k = z3.Int(f'round{self._fresh()}')
    d = self.e - z3.ToReal(k)
    CUR.add(z3.And(d <= z3.Q(1, 2), d >= z3.Q(-1, 2),
                   z3.Implies(z3.Or(d == z3.Q(1, 2), d == z3.Q(-1, 2)), k % 2 == 0)))
    return Sym(k)

  def is_integer(self):
    if self.kind == 'int':
      return True
    return SymBool(self.e == z3.ToReal(z3.ToInt(self.e)))

  def __repr__(self):
    return f'Sym({self.e})'

  __str__ = __repr__

  def __format__(self, spec):
    return repr(self)


class SymBool:

  def __init__(self, e):
    self.e = e

  def __bool__(self):
    return CUR.branch(self.e)

  def __and__(self, o):
    return SymBool(z3.And(self.e, o.e if isinstance(o, SymBool) else bool(o)))
  __rand__ = __and__

  def __or__(self, o):
    return SymBool(z3.Or(self.e, o.e if isinstance(o, SymBool) else bool(o)))
  __ror__ = __or__

  def __invert__(self):
    return SymBool(z3.Not(self.e))

  def __eq__(self, o):
    return bool(self) == bool(o)

  def __hash__(self):
    return 0


def sym_sqrt(x):
  CUR.fresh += 1
  r = z3.Real(f'sqrt{CUR.fresh}')
  e = z3.ToReal(x.e) if x.kind == 'int' else x.e
  if CUR.branch(e < 0):
    raise ValueError('math domain error')
  CUR.add(z3.And(r >= 0, r * r == e))
  return Sym(r, 'real')


def sym_isqrt(x):
  CUR.fresh += 1
  r = z3.Int(f'isqrt{CUR.fresh}')
  if CUR.branch(x.e < 0):
    raise ValueError('isqrt() argument must be nonnegative')
  CUR.add(z3.And(r >= 0, r * r <= x.e, (r + 1) * (r + 1) > x.e))
  return Sym(r)


@contextlib.contextmanager
def math_models():
  """sqrt-like library functions accept symbolic numbers."""
  import jax.numpy as jnp
  saved = []

  def wrap(mod, name, f):
    o = getattr(mod, name)
    saved.append((mod, name, o))
    setattr(mod, name, lambda x, *a, **k: f(x) if isinstance(x, Sym) else o(x, *a, **k))
  wrap(math, 'sqrt', sym_sqrt)
  wrap(math, 'isqrt', sym_isqrt)
  wrap(math, 'floor', lambda x: x.__floor__())
  wrap(math, 'ceil', lambda x: x.__ceil__())
  wrap(np, 'sqrt', sym_sqrt)
  wrap(np, 'round', round)
  wrap(np, 'floor', lambda x: x.__floor__())
  wrap(np, 'ceil', lambda x: x.__ceil__())
  wrap(jnp, 'sqrt', sym_sqrt)
  try:
    yield
  finally:
    for m, n, o in saved:
      setattr(m, n, o)


class _IntMeta(type):

  def __instancecheck__(cls, o):
    return isinstance(o, (int, Sym))


class IntShim(metaclass=_IntMeta):
  """Stands for `int` in the module under test: keeps symbolic integers."""

  def __new__(cls, x=0, *a):
    if isinstance(x, Sym):
      return x if x.kind == 'int' else x.__trunc__()
    return int(x, *a)


@contextlib.contextmanager
def shim(*modules):
  for m in modules:
    m.__dict__['int'] = IntShim
  try:
    yield
  finally:
    for m in modules:
      m.__dict__.pop('int', None)


def ints(*names):
  return [Sym(z3.Int(n)) for n in names]


def explore(fn, base=True, limit=4000, max_concrete=400):
  """-> list of (path condition, ('ok', value) | ('raise', exception))."""
  global CUR
  out, todo = [], [[]]
  while todo:
    script = todo.pop()
    if len(out) >= limit:
      raise Unsupported('too many paths')
    CUR = Path(base, script, max_concrete)
    try:
      with math_models():
        try:
          r = ('ok', fn())
        except Unsupported:
          raise
        except DeadPath:
          continue
        except Exception as e:  # behaviour of the code
          r = ('raise', e)
      p = CUR
    finally:
      CUR = None
    out.append((z3.And(base, *p.pc), r))
    for k in range(len(script), len(p.log)):
      d, fork = p.log[k]
      if fork:
        alt = (d[0], False) if isinstance(d, tuple) else (not d)
        todo.append([x for x, _ in p.log[:k]] + [alt])
  return out


def refute(pc, bad, timeout=20000):
  """Is there an assignment on this path with the bad condition?
  -> None (impossible) or a model; raises Unsupported when unknown."""
  s = z3.Solver()
  s.set('timeout', timeout)
  s.add(pc, bad)
  r = solve.check(s)
  if r == 'unsat':
    return None
  if r == 'sat':
    return s.model()
  raise Unsupported('solver gave no answer')
