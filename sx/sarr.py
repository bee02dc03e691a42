"""Symbolic integer arrays for code that runs eagerly on concrete arrays.

`SArr` stands for a jax array whose entries are plain-python symbolic numbers
(paths.Sym).  `shim_jnp(module)` replaces the module's `jnp` by a namespace
that understands them; masks used as indices and sizes fork the path
(paths.py).  Functions that are not modelled fork over all feasible values of
their arguments and run the real jax function on concrete arrays.
"""
from __future__ import annotations

import contextlib

import jax
import jax.numpy as jnp
import numpy as np

from . import paths as PX
from . import solve
from .poly import Unsupported
z3 = solve.z3


def _sym(x):
  return isinstance(x, (PX.Sym, PX.SymBool))


def has_sym(a):
  return isinstance(a, np.ndarray) and a.dtype == object and any(_sym(x) for x in a.flat)


def conc(x):
  """Concrete python value of a scalar (forks)."""
  if isinstance(x, PX.SymBool):
    return bool(x)
  if isinstance(x, PX.Sym):
    return int(x)
  return x


class SArr:
  __array_priority__ = 2000

  def __init__(self, a, dtype):
    self.a = np.asarray(a, dtype=object)
    self.dtype = np.dtype(dtype)

  shape = property(lambda s: s.a.shape)
  ndim = property(lambda s: s.a.ndim)
  size = property(lambda s: s.a.size)
  T = property(lambda s: SArr(s.a.T, s.dtype))

  def __len__(self):
    return len(self.a)

  def __iter__(self):
    return (self[i] for i in range(len(self.a)))

  def reshape(self, *s, **kw):
    s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
    return SArr(self.a.reshape(tuple(int(conc(v)) for v in s)), self.dtype)

  def astype(self, dt):
    return SArr(self.a, dt)

  def __index__(self):
    return int(conc(self.a[()]))

  def __int__(self):
    return int(conc(self.a[()]))

  def __bool__(self):
    return bool(self.a.reshape(())[()])

  def item(self):
    return conc(self.a.reshape(())[()])

  def tolist(self):
    return concrete(self).tolist()

  def _idx(self, i):
    def f(k):
      if isinstance(k, SArr):
        k = k.a
      if isinstance(k, jax.Array):
        k = np.asarray(k)
      if isinstance(k, np.ndarray):
        if k.dtype != object:
          return k
        isb = any(isinstance(x, (PX.SymBool, bool, np.bool_)) for x in k.flat)
        return np.array([conc(x) for x in k.flat], dtype=bool if isb else int).reshape(k.shape)
      if isinstance(k, slice):
        return slice(*[None if v is None else int(v) for v in (k.start, k.stop, k.step)])
      if _sym(k):
        return conc(k)
      return k
    return tuple(f(k) for k in i) if isinstance(i, tuple) else f(i)

  def _clamp(self, k):
    """jax semantics of out-of-range indices -> (index in range, was it in range)."""
    t = k if isinstance(k, tuple) else (k,)
    if any(j is None or j is Ellipsis for j in t):
      return k, True
    out, ok, nx = [], True, 0
    for j in t:
      ax = nx
      nx += j.ndim if isinstance(j, np.ndarray) and j.dtype == bool else 1
      if ax < self.a.ndim and isinstance(j, (int, np.integer)) and not isinstance(j, bool):
        n = self.a.shape[ax]
        if n and not -n <= j < n:
          ok, j = False, min(max(j + n if j < 0 else j, 0), n - 1)
      elif ax < self.a.ndim and isinstance(j, np.ndarray) and j.dtype.kind in 'iu' and j.size:
        n = self.a.shape[ax]
        w = np.where(j < 0, j + n, j)
        if n and (w.min() < 0 or w.max() >= n):
          ok, j = None, np.clip(w, 0, n - 1)
      out.append(j)
    return (tuple(out) if isinstance(k, tuple) else out[0]), ok

  def __getitem__(self, i):
    r = self.a[self._clamp(self._idx(i))[0]]
    return SArr(r, self.dtype)

  @property
  def at(self):
    return _At(self)

  def _bin(self, o, f, dtype=None, swap=False):
    b = raw(o)
    x, y = (b, self.a) if swap else (self.a, b)
    x, y = np.broadcast_arrays(np.asarray(x, dtype=object), np.asarray(y, dtype=object))
    r = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
      r[i] = f(x[i], y[i])
    return SArr(r, dtype or self.dtype)

  def __add__(s, o): return s._bin(o, lambda a, b: a + b)
  def __radd__(s, o): return s._bin(o, lambda a, b: a + b, swap=True)
  def __sub__(s, o): return s._bin(o, lambda a, b: a - b)
  def __rsub__(s, o): return s._bin(o, lambda a, b: a - b, swap=True)
  def __mul__(s, o): return s._bin(o, _mul)
  def __rmul__(s, o): return s._bin(o, _mul, swap=True)
  def __lt__(s, o): return s._bin(o, lambda a, b: a < b, bool)
  def __le__(s, o): return s._bin(o, lambda a, b: a <= b, bool)
  def __gt__(s, o): return s._bin(o, lambda a, b: a > b, bool)
  def __ge__(s, o): return s._bin(o, lambda a, b: a >= b, bool)
  def __eq__(s, o): return s._bin(o, lambda a, b: a == b, bool)
  def __ne__(s, o): return s._bin(o, lambda a, b: a != b, bool)
  def __and__(s, o): return s._bin(o, _and, bool)
  __rand__ = __and__
  def __or__(s, o): return s._bin(o, _or, bool)
  __ror__ = __or__
  def __invert__(s): return SArr(_map(s.a, _not), bool)
  __hash__ = None

  def sum(self, axis=None, **k):
    return NS.sum(self, axis=axis, **k)

  def max(self, axis=None, **k):
    return NS.max(self, axis=axis, **k)

  def min(self, axis=None, **k):
    return NS.min(self, axis=axis, **k)

  def any(self, axis=None, **k):
    return NS.any(self, axis=axis, **k)

  def all(self, axis=None, **k):
    return NS.all(self, axis=axis, **k)

  def flatten(self):
    return self.reshape(-1)
  ravel = flatten

  def __array__(self, dtype=None, copy=None):
    return concrete(self)


def _map(a, f):
  r = np.empty(a.shape, dtype=object)
  for i in np.ndindex(*a.shape):
    r[i] = f(a[i])
  return r


def _bz(x):
  return x.e if isinstance(x, PX.SymBool) else z3.BoolVal(bool(x))


def _num(x):
  if isinstance(x, PX.SymBool):
    return PX.Sym(z3.If(x.e, z3.IntVal(1), z3.IntVal(0)))
  if isinstance(x, (bool, np.bool_)):
    return int(x)
  return x


def _mul(a, b):
  return _num(a) * _num(b)


def _and(a, b):
  if not isinstance(a, PX.SymBool) and not isinstance(b, PX.SymBool):
    return bool(a) and bool(b)
  return PX.SymBool(z3.And(_bz(a), _bz(b)))


def _or(a, b):
  if not isinstance(a, PX.SymBool) and not isinstance(b, PX.SymBool):
    return bool(a) or bool(b)
  return PX.SymBool(z3.Or(_bz(a), _bz(b)))


def _not(a):
  return PX.SymBool(z3.Not(a.e)) if isinstance(a, PX.SymBool) else not a


def _ite(c, a, b):
  if not isinstance(c, PX.SymBool):
    return a if c else b
  if not _sym(a) and not _sym(b) and a == b:
    return a
  A = a.e if isinstance(a, PX.Sym) else z3.IntVal(int(a))
  B = b.e if isinstance(b, PX.Sym) else z3.IntVal(int(b))
  return PX.Sym(z3.If(c.e, A, B))


def raw(x):
  if isinstance(x, SArr):
    return x.a
  if isinstance(x, jax.Array):
    x = np.asarray(x)
  if isinstance(x, np.ndarray):
    return np.array([v.item() for v in x.reshape(-1)], dtype=object).reshape(x.shape)
  return x


def concrete(x):
  """Forks over the values of all entries."""
  r = np.array([conc(v) for v in x.a.flat])
  return r.reshape(x.a.shape).astype(x.dtype)


class _At:

  def __init__(self, x):
    self.x = x

  def __getitem__(self, i):
    x = self.x

    class R:
      def _do(_, v, f):
        a = np.array(x.a)
        k, ok = x._clamp(x._idx(i))
        if ok is None:
          raise Unsupported('update at indices out of range')
        if not ok:  # jax drops updates out of range
          return SArr(a, x.dtype)
        old = a[k]
        v = np.broadcast_to(np.asarray(raw(v), dtype=object), np.shape(old))
        if np.shape(old) == ():
          a[k] = f(old, v[()])
        else:
          n = np.empty(np.shape(old), dtype=object)
          for j in np.ndindex(*np.shape(old)):
            n[j] = f(old[j], v[j])
          a[k] = n
        return SArr(a, x.dtype)

      def set(self, v, **k):
        return self._do(v, lambda o, w: w)

      def add(self, v, **k):
        return self._do(v, lambda o, w: o + w)

      def multiply(self, v, **k):
        return self._do(v, _mul)
      mul = multiply
    return R()


def _deep(x):
  if isinstance(x, (SArr, PX.Sym, PX.SymBool)):
    return True
  if isinstance(x, (list, tuple)):
    return any(_deep(v) for v in x)
  if isinstance(x, dict):
    return any(_deep(v) for v in x.values())
  return False


def _conc_deep(x):
  if isinstance(x, SArr):
    return jnp.asarray(concrete(x))
  if _sym(x):
    return conc(x)
  if isinstance(x, (list, tuple)):
    return type(x)(_conc_deep(v) for v in x)
  if isinstance(x, dict):
    return {k: _conc_deep(v) for k, v in x.items()}
  return x


def _fold(f, start=None):
  def g(x, axis=None, keepdims=False, **kw):
    a = np.asarray(raw(x), dtype=object)
    dt = x.dtype if hasattr(x, 'dtype') else int
    if axis is None:
      a = a.reshape(-1)
      axis = 0
    a = np.moveaxis(a, axis, 0)
    if len(a) == 0 and start is None:
      raise ValueError('zero-size array to reduction operation')
    r = a[0] if start is None else np.full(a.shape[1:], start, dtype=object)
    for v in (a[1:] if start is None else a):
      x_, y_ = np.asarray(r, dtype=object), np.asarray(v, dtype=object)
      n = np.empty(x_.shape, dtype=object)
      for i in np.ndindex(*x_.shape):
        n[i] = f(x_[i], y_[i])
      r = n
    if keepdims:
      r = np.expand_dims(r, axis)
    return SArr(r, dt)
  return g


def _list(x):
  if isinstance(x, SArr):
    return x.a
  return [np.asarray(raw(v), dtype=object) for v in x]


def _dtype_of(xs, default=np.int32):
  for v in (xs if isinstance(xs, (list, tuple)) else [xs]):
    if hasattr(v, 'dtype'):
      return v.dtype
    if isinstance(v, (list, tuple)):
      return _dtype_of(v, default)
  return default


class Namespace:
  """jnp with symbolic support."""

  def __init__(self):
    self.max = _fold(lambda a, b: _ite(a >= b, a, b))
    self.min = _fold(lambda a, b: _ite(a <= b, a, b))
    self.amax, self.amin = self.max, self.min
    self._sum = _fold(lambda a, b: _num(a) + _num(b), 0)
    self._any = _fold(_or, False)
    self._all = _fold(_and, True)

  def sum(self, x, axis=None, where=None, **k):
    if where is not None:
      x = self.where(where, x, 0)
    return self._sum(x, axis=axis, **k)

  def count_nonzero(self, x, axis=None, **k):
    return self._sum(SArr(_map(x.a, lambda v: v if isinstance(v, (PX.SymBool, bool, np.bool_)) else v != 0), np.int32), axis=axis, **k)

  def any(self, x, axis=None, **k):
    return self._any(x, axis=axis, **k)

  def all(self, x, axis=None, **k):
    return self._all(x, axis=axis, **k)

  def reshape(self, x, shape=None, **k):
    shape = k.get('newshape', shape)
    return x.reshape(shape)

  def asarray(self, x, dtype=None, **k):
    if isinstance(x, SArr):
      return x if dtype is None else x.astype(dtype)
    return SArr(np.array([v for v in x], dtype=object) if not any(isinstance(v, SArr) for v in x) else np.stack(_list(x)), dtype or _dtype_of(x))
  array = asarray

  def stack(self, xs, axis=0, **k):
    return SArr(np.stack(_list(xs), axis=axis), _dtype_of(xs))

  def concatenate(self, xs, axis=0, **k):
    return SArr(np.concatenate(_list(xs), axis=axis), _dtype_of(xs))

  def empty_like(self, x, dtype=None, shape=None, **k):
    return jnp.zeros(tuple(int(v) for v in (x.shape if shape is None else shape)), dtype or x.dtype)
  zeros_like = empty_like

  def full(self, shape, v, dtype=None, **k):
    shape = (shape,) if not isinstance(shape, (tuple, list)) else shape
    shape = tuple(int(conc(s) if not isinstance(s, SArr) else s) for s in shape)
    v = raw(v)
    v = v[()] if isinstance(v, np.ndarray) else v
    r = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
      r[i] = v
    return SArr(r, dtype or np.int32)

  def full_like(self, x, v, dtype=None, shape=None, **k):
    return self.full(x.shape if shape is None else shape, v, dtype or x.dtype)

  def pad(self, x, width, mode='constant', constant_values=0, **k):
    width = [[int(w) for w in p] for p in ([width] if not isinstance(width[0], (tuple, list)) else width)]
    if len(width) == 1:
      width = width * x.ndim
    c = raw(constant_values)
    c = c[()] if isinstance(c, np.ndarray) else c
    shape = tuple(n + a + b for n, (a, b) in zip(x.shape, width))
    r = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
      r[i] = c
    r[tuple(slice(a, a + n) for n, (a, b) in zip(x.shape, width))] = raw(x)
    return SArr(r, x.dtype)

  def where(self, c, a=None, b=None, **k):
    if a is None:
      raise NotImplementedError
    c, a_, b_ = np.broadcast_arrays(*[np.asarray(raw(v), dtype=object) for v in (c, a, b)])
    r = np.empty(c.shape, dtype=object)
    for i in np.ndindex(*c.shape):
      r[i] = _ite(c[i], a_[i], b_[i])
    return SArr(r, _dtype_of([a, b]))

  def expand_dims(self, x, axis):
    return SArr(np.expand_dims(x.a, axis), x.dtype)

  def transpose(self, x, axes=None):
    return SArr(np.transpose(x.a, axes), x.dtype)

  def broadcast_to(self, x, shape):
    return SArr(np.broadcast_to(x.a, shape), x.dtype)

  def repeat(self, x, n, axis=None, **k):
    return SArr(np.repeat(x.a, n, axis=axis), x.dtype)

  def tile(self, x, n):
    return SArr(np.tile(x.a, n), x.dtype)


  def _bools(self, x):
    return np.array([conc(v) if isinstance(v, PX.SymBool) else bool(conc(v != 0) if _sym(v) else v) for v in x.a.flat], dtype=bool).reshape(x.shape)

  def nonzero(self, x, **k):
    return jnp.nonzero(self._bools(x), **k)

  def flatnonzero(self, x, **k):
    return jnp.flatnonzero(self._bools(x), **k)

  def argwhere(self, x, **k):
    return jnp.argwhere(self._bools(x), **k)

  def take(self, x, i, axis=None, **k):
    i = np.asarray(SArr(x.a, x.dtype)._idx(i))
    return SArr(np.take(raw(x), i, axis=axis), x.dtype)

  def logical_and(self, a, b):
    return a & b if isinstance(a, SArr) else b & a

  def logical_or(self, a, b):
    return a | b if isinstance(a, SArr) else b | a

  def logical_not(self, a):
    return ~a

  def less(self, a, b):
    return a < b

  def equal(self, a, b):
    return a == b

  def not_equal(self, a, b):
    return a != b

  def greater_equal(self, a, b):
    return a >= b

  def maximum(self, a, b):
    return self.max(self.stack([a, b]), axis=0)

  def minimum(self, a, b):
    return self.min(self.stack([a, b]), axis=0)

  def ravel(self, x):
    return x.reshape(-1)

  def atleast_1d(self, x):
    return x.reshape(-1) if x.ndim == 0 else x

  def hstack(self, xs):
    return self.concatenate(xs, axis=0)

  def compress(self, c, x, axis=None, **k):
    return x[c]

  def swapaxes(self, x, a, b):
    return SArr(np.swapaxes(x.a, a, b), x.dtype)

  def cumsum(self, x, axis=None, **k):
    a = x.a if axis is not None else x.a.reshape(-1)
    return SArr(np.cumsum(_map(a, _num), axis=axis or 0), np.int32)


class _Proxy:

  def __getattr__(self, name):
    real = getattr(jnp, name)
    if not callable(real) or isinstance(real, type):
      return real
    mine = getattr(NS, name, None)

    def f(*a, **k):
      if not _deep(a) and not _deep(k):
        return real(*a, **k)
      if mine is not None:
        try:
          return mine(*a, **k)
        except (PX.DeadPath, Unsupported):
          raise
        except (TypeError, AttributeError, NotImplementedError, ValueError):
          pass
      return real(*[_conc_deep(v) for v in a], **{q: _conc_deep(v) for q, v in k.items()})
    return f


NS = Namespace()


@contextlib.contextmanager
def shim_jnp(*modules):
  saved = []
  for m in modules:
    if hasattr(m, 'jnp'):
      saved.append((m, m.jnp))
      m.jnp = _Proxy()
  try:
    yield
  finally:
    for m, o in saved:
      m.jnp = o


def ints(name, shape, dtype=np.int32):
  a = np.empty(shape, dtype=object)
  vs = []
  for i in np.ndindex(*shape):
    v = z3.Int(f'{name}{list(i)}')
    vs.append(v)
    a[i] = PX.Sym(v)
  return SArr(a, dtype), vs
