"""Interval constraint solving over single-precision jaxprs.

A function is traced by jax in its real precision and the jaxpr is evaluated on
boxes of float32 inputs: every intermediate element is an interval of float32
values (outward rounded, subnormal results may be flushed, transcendental
functions are enclosed with a few ulps of error) plus a flag "may be NaN".
Branch and prune: a box whose outputs cannot be NaN or infinite is discharged;
other boxes are split in the ordering of the floats down to single floats.
The midpoints and corners of open boxes are also run on the real code, so a
violation is always a concrete input on which the real code fails.

Many boxes are processed at once: every value has a leading box axis.
"""
from __future__ import annotations

import itertools
import math
import time

import jax
import jax.numpy as jnp
import numpy as np
import scipy.special

from .poly import Unsupported
from .interp import Literal

F32 = np.float32
TINY = float(np.finfo(np.float32).tiny)
MAX = float(np.finfo(np.float32).max)
INF = math.inf


_ID = [1]


class B:
  """Batched boxes: lo, hi float64 and nan bool, shape (N, *shape)."""
  __slots__ = ('lo', 'hi', 'nan', 'dtype', '_al', 'ref', 'gap', 'sq', 'fuse', 'hole', 'rof', 'geq')

  def __init__(self, lo, hi, nan, dtype, al=None):
    self.lo, self.hi, self.nan, self.dtype = lo, hi, nan, np.dtype(dtype)
    self._al = al
    self.ref = None  # booleans: ([facts when true], [facts when false]), a fact is (value number, lo, hi)
    self.gap = None  # a nonzero value is at least this large
    self.sq = None  # value number of the square root of this value
    self.geq = ()  # value numbers of values that are not larger than this one (0: none)
    self.rof = None  # value number this is a rounding of
    self.hole = None  # the value is never within (-hole, hole) (0: unknown)
    self.fuse = False  # a product that may reach an addition unrounded

  def like(self, f):
    """apply an indexing/broadcasting function to all parts."""
    r = type(self)(f(self.lo), f(self.hi), f(self.nan), self.dtype, None if self._al is None else f(self._al))
    if self.ref is not None:
      r.ref = tuple([tuple(f(a) for a in fact) for fact in side] for side in self.ref)
    if self.gap is not None:
      r.gap = f(self.gap)
    if self.hole is not None:
      r.hole = f(self.hole)
    if self.rof is not None:
      r.rof = f(self.rof)
    r.geq = tuple(f(a) for a in self.geq)
    if self.sq is not None:
      r.sq = tuple(f(a) for a in self.sq)
    r.fuse = self.fuse
    return r

  @property
  def al(self):
    """value numbers: elements with equal numbers are the same float."""
    if self._al is None:
      n = self.lo.size
      self._al = np.arange(_ID[0], _ID[0] + n, dtype=np.int64).reshape(self.lo.shape)
      _ID[0] += n
    return self._al

  def fresh_where(self, al, cond):
    """al where cond, new numbers elsewhere."""
    if not cond.any():
      return self
    self._al = np.where(cond, al, self.al)
    return self

  @property
  def shape(self):
    return self.lo.shape[1:]


def isb(x):
  return isinstance(x, B)


def lift(x, n=1):
  if isb(x):
    return x
  a = np.asarray(x)
  v = a.astype(np.float64)[None]
  nan = np.isnan(v)
  v = np.where(nan, 0.0, v)
  return B(v, v, nan, a.dtype)


def _r32(x):
  with np.errstate(all='ignore'):
    return x.astype(np.float32).astype(np.float64)


def _down(x):
  """largest float32 <= x (x float64)."""
  with np.errstate(all='ignore'):
    y = x.astype(np.float32)
    y = np.where(y.astype(np.float64) > x, np.nextafter(y, F32(-INF)), y)
  return y.astype(np.float64)


def _up(x):
  with np.errstate(all='ignore'):
    y = x.astype(np.float32)
    y = np.where(y.astype(np.float64) < x, np.nextafter(y, F32(INF)), y)
  return y.astype(np.float64)


def _flush(lo, hi):
  """subnormal endpoints may be flushed to zero."""
  lo = np.where((lo > 0) & (lo < TINY), 0.0, lo)
  hi = np.where((hi < 0) & (hi > -TINY), 0.0, hi)
  return lo, hi


def mk(lo, hi, nan, dtype, rnd='near', ulps=0):
  """finish a float result."""
  dtype = np.dtype(dtype)
  # an endpoint that is itself undefined stands for anything
  bad = np.isnan(lo) | np.isnan(hi)
  if bad.any():
    lo = np.where(bad, -INF, lo)
    hi = np.where(bad, INF, hi)
  if dtype == np.float32:
    if ulps:
      e = ulps * 2.0 ** -23
      with np.errstate(all='ignore'):
        lo = np.where(np.isfinite(lo), lo - np.abs(lo) * e, lo)
        hi = np.where(np.isfinite(hi), hi + np.abs(hi) * e, hi)
    if rnd == 'near' and not ulps:
      lo, hi = _r32(lo), _r32(hi)
    else:
      lo, hi = _down(lo), _up(hi)
    lo, hi = _flush(lo, hi)
  elif dtype.kind == 'f':
    raise Unsupported(f'dtype {dtype}')
  lo, hi, nan = np.broadcast_arrays(lo, hi, nan)
  return B(lo, hi, nan, dtype)


# -- arithmetic ------------------------------------------------------------------
def add(x, y, dt):
  with np.errstate(all='ignore'):
    nan = x.nan | y.nan | ((x.hi == INF) & (y.lo == -INF)) | ((x.lo == -INF) & (y.hi == INF))
    lo = x.lo + y.lo
    hi = x.hi + y.hi
    # inf - inf at an endpoint: that endpoint is NaN, values next to it are not bounded
    lo = np.where(np.isnan(lo), -INF, lo)
    hi = np.where(np.isnan(hi), INF, hi)
  r = mk(lo, hi, nan, dt)
  if np.dtype(dt) == np.float32 and (x.lo.shape[0] > 1 or y.lo.shape[0] > 1):
    # adding much less than an ulp changes nothing
    for a, b in ((x, y), (y, x)):
      with np.errstate(all='ignore'):
        small = np.maximum(np.abs(b.lo), np.abs(b.hi)) < 2.0 ** -26 * np.where((a.lo <= 0) & (a.hi >= 0), 0.0, np.minimum(np.abs(a.lo), np.abs(a.hi)))
      small = small | ((b.lo == 0) & (b.hi == 0))
      small = small & ~b.nan
      if small.any():
        small = np.broadcast_to(small, r.lo.shape)
        r.lo, r.hi = np.where(small, a.lo, r.lo), np.where(small, a.hi, r.hi)
        r.fresh_where(a.al, small)
  if np.dtype(dt) == np.float32 and not x.fuse and not y.fuse:
    r.gap = np.broadcast_to(np.minimum(_grain(x), _grain(y)), r.lo.shape)
  return r


SUB = 2.0 ** -149


def _grain(x):
  """all values are multiples of this."""
  with np.errstate(all='ignore'):
    m = np.where((x.lo <= 0) & (x.hi >= 0), 0.0, np.minimum(np.abs(x.lo), np.abs(x.hi)))
    m = np.where(np.isfinite(m), m, 1.0)
    e = np.floor(np.log2(np.maximum(m, SUB)) - 1e-9)
    g = np.maximum(2.0 ** (e - 23), SUB)
  only0 = (x.lo == 0) & (x.hi == 0)
  return np.where(only0, INF, g)


def _gap(x):
  return SUB if x.gap is None else np.where(np.isfinite(x.gap), x.gap, SUB)


def neg(x):
  r = B(-x.hi, -x.lo, x.nan, x.dtype, -x._al if x._al is not None else None)
  r.gap, r.fuse, r.hole = x.gap, x.fuse, x.hole
  return r


def hole(x):
  h = np.where(x.lo > 0, x.lo, np.where(x.hi < 0, -x.hi, 0.0))
  return h if x.hole is None else np.maximum(h, x.hole)


def sub(x, y, dt):
  r = add(x, neg(y), dt)
  for g in y.geq:
    m = g == x.al
    if m.any():
      r.hi = np.where(m, np.minimum(r.hi, 0.0), r.hi)
  for g in x.geq:
    m = g == y.al
    if m.any():
      r.lo = np.where(m, np.maximum(r.lo, 0.0), r.lo)
  if y.rof is not None:
    m = y.rof == x.al
    if m.any():
      # x - round(x); the product x may enter a fused operation unrounded
      with np.errstate(all='ignore'):
        w = 0.5 + (np.maximum(np.abs(x.lo), np.abs(x.hi)) * 2.0 ** -23 if x.fuse else 0.0)
      r.lo, r.hi = np.where(m, np.maximum(r.lo, -w), r.lo), np.where(m, np.minimum(r.hi, w), r.hi)
  same = np.broadcast_to(x.al == y.al, r.lo.shape)
  if same.any() and not x.fuse and not y.fuse:
    r.lo, r.hi = np.where(same, 0.0, r.lo), np.where(same, 0.0, r.hi)
    r.nan = np.where(same, x.nan | (x.lo == -INF) | (x.hi == INF), r.nan)
  return r


def _m(a, b):
  """product with 0 * inf = 0 (the NaN case is flagged separately)."""
  with np.errstate(all='ignore'):
    p = a * b
  return np.where((a == 0) | (b == 0), 0.0, p)


def mul(x, y, dt):
  z1 = (x.lo <= 0) & (x.hi >= 0)
  z2 = (y.lo <= 0) & (y.hi >= 0)
  i1 = (x.lo == -INF) | (x.hi == INF)
  i2 = (y.lo == -INF) | (y.hi == INF)
  nan = x.nan | y.nan | (z1 & i2) | (z2 & i1)
  c = [_m(x.lo, y.lo), _m(x.lo, y.hi), _m(x.hi, y.lo), _m(x.hi, y.hi)]
  lo = np.minimum(np.minimum(c[0], c[1]), np.minimum(c[2], c[3]))
  hi = np.maximum(np.maximum(c[0], c[1]), np.maximum(c[2], c[3]))
  # products may be fused with a following addition: keep the exact product inside
  r = _prod(mk(lo, hi, nan, dt, rnd='out'), lo, hi)
  if np.dtype(dt) == np.float32 and ((lo > 0) & (r.lo == 0)).any():
    # a positive product that may be flushed: zero or at least this
    r.gap = np.where((lo > 4 * SUB) & np.isfinite(lo), np.broadcast_to(_down(np.where(lo > 4 * SUB, lo, 1.0)) - SUB, r.lo.shape), SUB)
  same = x.al == y.al
  if same.any():
    # a square
    s = square(x, dt)
    r.lo, r.hi = np.where(same, s.lo, r.lo), np.where(same, s.hi, r.hi)
    if same.all():
      r.sq = s.sq
  for a, b in ((x, y), (y, x)):
    one = (b.lo == 1) & (b.hi == 1) & ~b.nan
    if one.any():
      r.fresh_where(a.al, np.broadcast_to(one, r.lo.shape))
  return r


def square(x, dt):
  a, b = x.lo * x.lo, x.hi * x.hi
  z = (x.lo <= 0) & (x.hi >= 0)
  lo, hi = np.where(z, 0.0 if x.hole is None else x.hole * x.hole, np.minimum(a, b)), np.maximum(a, b)
  r = _prod(mk(lo, hi, x.nan, dt, rnd='out'), lo, hi)
  r.sq = (x.al, np.where(x.lo >= 0, 1, np.where(x.hi <= 0, -1, 0)), np.broadcast_to(_gap(x), x.lo.shape))
  return r


def _prod(r, lo, hi):
  """a product below half of the smallest subnormal is zero (also inside a fused operation)."""
  r.fuse = True
  r.hi = np.where((hi >= 0) & (hi < 2.0 ** -151), 0.0, r.hi)
  r.lo = np.where((lo <= 0) & (lo > -2.0 ** -151), 0.0, r.lo)
  return r


def recip(y):
  """exact reciprocal enclosure (before rounding); 0 has both signs."""
  z = (y.lo <= 0) & (y.hi >= 0)
  with np.errstate(all='ignore'):
    lo = np.where(z, -INF, 1.0 / y.hi)
    hi = np.where(z, INF, 1.0 / y.lo)
  return lo, hi


def _div(x, y, dt):
  zy = (y.lo <= 0) & (y.hi >= 0)
  zx = (x.lo <= 0) & (x.hi >= 0)
  ix = (x.lo == -INF) | (x.hi == INF)
  iy = (y.lo == -INF) | (y.hi == INF)
  nan = x.nan | y.nan | (zy & zx) | (ix & iy)
  with np.errstate(all='ignore'):
    c = []
    for a in (x.lo, x.hi):
      for b in (y.lo, y.hi):
        q = a / b
        # inf / inf: anything between 0 and inf of that sign
        q = np.where(np.isnan(q), 0.0, q)
        c.append(q)
    lo = np.minimum(np.minimum(c[0], c[1]), np.minimum(c[2], c[3]))
    hi = np.maximum(np.maximum(c[0], c[1]), np.maximum(c[2], c[3]))
    both = ix & iy
    lo = np.where(both, -INF, lo)
    hi = np.where(both, INF, hi)
  only0 = (x.lo == 0) & (x.hi == 0)
  lo = np.where(zy, np.where(only0, 0.0, -INF), lo)
  hi = np.where(zy, np.where(only0, 0.0, INF), hi)
  hl = None
  if y.hole is not None:
    w = zy & (y.hole > 0) & ~ix
    if w.any():
      with np.errstate(all='ignore'):
        m = np.maximum(np.abs(x.lo), np.abs(x.hi)) / np.where(w, y.hole, 1.0)
        ymax = np.maximum(np.abs(y.lo), np.abs(y.hi))
        hx = hole(x) / ymax
      lo, hi = np.where(w, -m, lo), np.where(w, m, hi)
      nan = np.where(w, x.nan | y.nan | (ix & iy), nan)
      hl = np.where(w & (hx > 2 * TINY), hx * (1 - 1e-6), 0.0)
  same = (x.al == y.al) & ~zx & ~ix
  lo, hi = np.where(same, 1.0, lo), np.where(same, 1.0, hi)
  r = mk(lo, hi, nan, dt)
  r.hole = hl
  return r


def mono(f, ulps, lo_clip=-INF, hi_clip=INF, dom=None):
  """increasing function with an error of a few ulps."""
  def g(x, dt):
    nan = x.nan
    a, b = x.lo, x.hi
    if dom is not None:
      # NaN below dom; the value is only evaluated inside
      nan = nan | (a < dom)
      a, b = np.maximum(a, dom), np.maximum(b, dom)
    with np.errstate(all='ignore'):
      lo, hi = f(a), f(b)
    r = mk(lo, hi, nan, dt, ulps=ulps)
    r.lo = np.maximum(r.lo, lo_clip)
    r.hi = np.minimum(r.hi, hi_clip)
    return r
  return g


def _exp(x, dt):
  with np.errstate(all='ignore'):
    lo, hi = np.exp(x.lo), np.exp(x.hi)
  r = mk(lo, hi, x.nan, dt, ulps=8)
  # vectorised implementations clamp the argument near the overflow threshold
  r.hi = np.where(x.hi > 88.0, INF, r.hi)
  r.lo = np.where(x.lo > 88.0, np.minimum(r.lo, 1.6e38), r.lo)
  r.lo = np.maximum(np.where(x.lo < -86.0, 0.0, r.lo), 0.0)
  r.hi = np.where((x.hi < -86.0), np.maximum(r.hi, 4.5e-38), r.hi)
  r.hi = np.where((x.hi == -INF), 4.5e-38, r.hi)
  # exp(x) >= 1 for x >= 0 and <= 1 for x <= 0 (checked by saturations())
  r.hi = np.where(x.hi <= 0, np.minimum(r.hi, 1.0), r.hi)
  r.lo = np.where(x.lo >= 0, np.maximum(r.lo, 1.0), r.lo)
  return r


def _expm1(x, dt):
  with np.errstate(all='ignore'):
    lo, hi = np.expm1(x.lo), np.expm1(x.hi)
  r = mk(lo, hi, x.nan, dt, ulps=8)
  r.hi = np.where(x.hi > 88.0, INF, r.hi)
  r.lo = np.maximum(np.where(x.lo > 88.0, np.minimum(r.lo, 1.6e38), r.lo), -1.0)
  return r


def _log(x, dt):
  return mono(np.log, 8, dom=0.0)(x, dt)


def _log1p(x, dt):
  return mono(np.log1p, 8, dom=-1.0)(x, dt)


def _sqrt(x, dt):
  a, b = np.maximum(x.lo, 0.0), np.maximum(x.hi, 0.0)
  return mk(np.sqrt(a), np.sqrt(b), x.nan | (x.lo < 0), dt, ulps=1)


def _rsqrt(x, dt):
  s = _sqrt(x, dt)
  one = np.ones_like(s.lo)
  with np.errstate(all='ignore'):
    # rsqrt(-0) is -inf
    lo = np.where(x.lo <= 0, np.where(x.hi <= 0, -INF, 1 / s.hi), 1 / s.hi)
    lo = np.where((x.lo <= 0) & (x.hi >= 0), -INF, lo)
    hi = np.where(s.lo <= 0, INF, 1 / s.lo)
  return mk(lo, hi, x.nan | (x.lo < 0), dt, ulps=4)


def _acos(x, dt, f, dec):
  a, b = np.clip(x.lo, -1.0, 1.0), np.clip(x.hi, -1.0, 1.0)
  lo, hi = (f(b), f(a)) if dec else (f(a), f(b))
  return mk(lo - 2e-6, hi + 2e-6, x.nan | (x.lo < -1) | (x.hi > 1), dt, rnd='out')


def _trig(f, shift):
  """sin (shift 0) / cos (shift pi/2) with absolute error."""
  def g(x, dt):
    big = ~(np.isfinite(x.lo) & np.isfinite(x.hi)) | (x.hi - x.lo > 6.0) | (np.maximum(np.abs(x.lo), np.abs(x.hi)) > 1e6)
    a = np.where(big, 0.0, x.lo)
    b = np.where(big, 0.0, x.hi)
    fa, fb = f(a), f(b)
    lo, hi = np.minimum(fa, fb), np.maximum(fa, fb)
    # extrema at pi/2 + k pi - shift
    k0 = np.ceil((a - math.pi / 2 + shift) / math.pi)
    t = math.pi / 2 + k0 * math.pi - shift
    for _ in range(3):
      inside = t <= b
      lo = np.where(inside, np.minimum(lo, f(t)), lo)
      hi = np.where(inside, np.maximum(hi, f(t)), hi)
      t = t + math.pi
    e = 1e-6
    exact0 = (a == 0) & (b == 0)
    lo = np.where(exact0, lo, lo - e)
    hi = np.where(exact0, hi, hi + e)
    lo = np.where(big, -1 - e, lo)
    hi = np.where(big, 1 + e, hi)
    nan = x.nan | ~(np.isfinite(x.lo) & np.isfinite(x.hi))
    return mk(lo, hi, nan, dt, rnd='out')
  return g


def _ipow(x, n, dt):
  if n == 0:
    return B(np.ones_like(x.lo), np.ones_like(x.hi), np.zeros_like(x.nan), x.dtype)
  m = abs(n)
  with np.errstate(all='ignore'):
    a, b = x.lo ** m, x.hi ** m
  if m % 2 == 0:
    z = (x.lo <= 0) & (x.hi >= 0)
    lo, hi = np.where(z, 0.0 if x.hole is None else x.hole ** m, np.minimum(a, b)), np.maximum(a, b)
  else:
    lo, hi = a, b
  # repeated products
  r = mk(lo, hi, x.nan, dt, ulps=0 if m <= 2 else m - 1)
  if n < 0:
    one = B(np.ones_like(r.lo), np.ones_like(r.lo), np.zeros_like(r.nan), r.dtype)
    r = _div(one, r, dt)
    r.lo, r.hi = np.where(np.isfinite(r.lo), _down(r.lo - np.abs(r.lo) * 2e-7), r.lo), np.where(np.isfinite(r.hi), _up(r.hi + np.abs(r.hi) * 2e-7), r.hi)
  return r


def _pow(x, y, dt):
  """x ** y for x >= 0 (anything for negative x)."""
  a, b = np.maximum(x.lo, 0.0), np.maximum(x.hi, 0.0)
  with np.errstate(all='ignore'):
    c = [u ** v for u in (a, b) for v in (y.lo, y.hi)]
  lo = np.minimum(np.minimum(c[0], c[1]), np.minimum(c[2], c[3]))
  hi = np.maximum(np.maximum(c[0], c[1]), np.maximum(c[2], c[3]))
  with np.errstate(all='ignore'):
    one = ((a <= 1) & (b >= 1)) | ((y.lo <= 0) & (y.hi >= 0))
  lo = np.where(one, np.minimum(lo, 1.0), lo)
  hi = np.where(one, np.maximum(hi, 1.0), hi)
  zneg = (a <= 0) & (y.lo < 0)
  hi = np.where(zneg, INF, hi)
  negx = x.lo < 0
  intneg = negx
  lo = np.where(intneg, -INF, lo)
  hi = np.where(intneg, INF, hi)
  r = mk(lo, hi, x.nan | y.nan | negx, dt, ulps=64)
  # x ** 0 == 1 exactly
  z = (y.lo == 0) & (y.hi == 0)
  r.lo, r.hi, r.nan = np.where(z, 1.0, r.lo), np.where(z, 1.0, r.hi), np.where(z, False, r.nan)
  return r


def _max(x, y, dt, settle=None):
  r = B(np.maximum(x.lo, y.lo), np.maximum(x.hi, y.hi), x.nan | y.nan, dt)
  sh = r.lo.shape
  xa, ya = np.broadcast_to(x.lo >= y.hi, sh), np.broadcast_to(y.lo >= x.hi, sh)
  if settle is not None:
    # which operand is the larger one (a decision per box)
    d = settle(boolv(~ya, ~xa))
    if d.lo.shape == sh:
      xa, ya = xa | (d.lo == 1), ya | (d.hi == 0)
  for a, m in ((x, xa), (y, ya)):
    r.fresh_where(np.broadcast_to(a.al, sh), m & ~r.nan)
    r.hi = np.where(m, np.minimum(r.hi, a.hi), r.hi)
  if r.dtype == np.float32:
    g = [np.broadcast_to(v, sh) for v in (*x.geq, *y.geq, x.al, y.al)]
    r.geq = tuple(g[-24:])
  return r


def _min(x, y, dt):
  r = B(np.minimum(x.lo, y.lo), np.minimum(x.hi, y.hi), x.nan | y.nan, dt)
  for a, b in ((x, y), (y, x)):
    r.fresh_where(a.al, np.broadcast_to((a.hi <= b.lo) & ~r.nan, r.lo.shape))
  return r


def _abs(x):
  z = (x.lo <= 0) & (x.hi >= 0)
  a, b = np.abs(x.lo), np.abs(x.hi)
  r = B(np.where(z, 0.0, np.minimum(a, b)), np.maximum(a, b), x.nan, x.dtype)
  r.fresh_where(x.al, x.lo >= 0)
  r.fresh_where(-x.al, x.hi < 0)
  return r


BOOL = np.dtype(bool)


def boolv(t, f):
  """may be true / may be false."""
  lo = np.where(f, 0.0, 1.0)
  hi = np.where(t, 1.0, 0.0)
  return B(lo, hi, np.zeros(np.broadcast_shapes(np.shape(lo), np.shape(hi)), bool), BOOL)


def _next(v, gap):
  """smallest float32 above v (a multiple-of-gap value when v = 0)."""
  with np.errstate(all='ignore'):
    n = np.nextafter(v.astype(np.float32), F32(INF)).astype(np.float64)
  return np.where(v == 0, gap, n)


def _rootlo(lo):
  """smallest float32 r >= 0 whose rounded square is at least lo."""
  with np.errstate(all='ignore'):
    r = (np.sqrt(np.maximum(lo - SUB, 0.0)) * (1 - 5e-7)).astype(np.float32)
    for _ in range(12):
      q = r.astype(np.float64)
      q = (q * q).astype(np.float32).astype(np.float64)
      r = np.where(q < lo, np.nextafter(r, F32(INF)), r)
  return r.astype(np.float64)


def _facts(op, x, y):
  """what `x op y` says about x."""
  big = np.full(np.broadcast_shapes(x.lo.shape, y.lo.shape), INF)
  if op == 'lt':
    lo, hi = -big, -_next(-y.hi, _gap(x))
  elif op == 'le':
    lo, hi = -big, y.hi
  elif op == 'gt':
    lo, hi = _next(y.lo, _gap(x)), big
  elif op == 'ge':
    lo, hi = y.lo, big
  elif op == 'eq':
    lo, hi = y.lo, y.hi
  else:  # ne
    z = (y.lo == 0) & (y.hi == 0)
    lo = np.where(z & (x.lo >= 0), _gap(x), -big)
    hi = np.where(z & (x.hi <= 0), -_gap(x), big)
  lo, hi = np.broadcast_to(lo, big.shape), np.broadcast_to(hi, big.shape)
  al = np.broadcast_to(x.al, big.shape)
  out = [(al, lo, hi), (-al, -hi, -lo)]
  if x.sq is not None:
    ra, rs, rg = x.sq
    with np.errstate(all='ignore'):
      l = _rootlo(lo)
      l = np.where(lo > 0, np.maximum(np.where(np.isfinite(l), l, 0.0), rg), 0.0)
      h = np.where(hi < INF, np.sqrt(np.maximum(hi, 0.0) + SUB) * (1 + 1e-6), INF)
    out.append((np.broadcast_to(ra, big.shape), np.where(rs > 0, l, -h), np.where(rs < 0, -l, h)))
  return out


_NEG = dict(lt='ge', le='gt', gt='le', ge='lt', eq='ne', ne='eq')
_SWAP = dict(lt='gt', le='ge', gt='lt', ge='le', eq='eq', ne='ne')


def cmp(op, x, y):
  r = _cmp(op, x, y)
  if x.dtype == np.float32 and x.lo.shape[0] + y.lo.shape[0] > 2:
    sides = []
    for o in (op, _NEG[op]):
      f = []
      if x.lo.shape[0] > 1 or not np.all(x.lo == x.hi):
        f += _facts(o, x, y)
      if y.lo.shape[0] > 1 or not np.all(y.lo == y.hi):
        f += _facts(_SWAP[o], y, x)
      sides.append(f)
    r.ref = tuple(sides)
  return r


def _cmp(op, x, y):
  nn = x.nan | y.nan
  if op == 'lt':
    t, f = x.lo < y.hi, x.hi >= y.lo
  elif op == 'le':
    t, f = x.lo <= y.hi, x.hi > y.lo
  elif op == 'gt':
    return _cmp('lt', y, x)
  elif op == 'ge':
    return _cmp('le', y, x)
  elif op in ('eq', 'ne'):
    t = (x.lo <= y.hi) & (x.hi >= y.lo)
    f = ~((x.lo == x.hi) & (y.lo == y.hi) & (x.lo == y.lo))
    if op == 'ne':
      return boolv(f | nn, t)
  return boolv(t, f | nn)


def hull(xs, sel):
  """union of xs[i] where sel[i]."""
  lo = hi = nan = None
  for x, s in zip(xs, sel):
    l, h, n = np.where(s, x.lo, INF), np.where(s, x.hi, -INF), x.nan & s
    lo = l if lo is None else np.minimum(lo, l)
    hi = h if hi is None else np.maximum(hi, h)
    nan = n if nan is None else nan | n
  r = B(lo, hi, nan, xs[0].dtype)
  if r.dtype == np.float32:
    al = np.zeros(lo.shape, np.int64)
    ok = np.ones(lo.shape, bool)
    for x, s in zip(xs, sel):
      ok &= ~s | (al == 0) | (al == x.al)
      al = np.where(s, x.al, al)
    r.fresh_where(al, ok)
    if ((lo <= 0) & (hi >= 0)).any():
      hs = np.full(lo.shape, INF)
      for x, s in zip(xs, sel):
        hs = np.where(s, np.minimum(hs, hole(x)), hs)
      if ((hs > 0) & (lo <= 0) & (hi >= 0)).any():
        r.hole = np.where(np.isfinite(hs), hs, 0.0)
  return r


RULES = {}


def rule(*names):
  def deco(f):
    for n in names:
      RULES[n] = f
    return f
  return deco


def _dt(eqn, k=0):
  return eqn.outvars[k].aval.dtype


class Interp:

  def __init__(self, dec=None):
    self.prims = {}
    self.eqns = 0
    # per box decisions about comparisons: position (-1: unused) and value
    self.dec = dec
    self.first = None  # first undecided, undetermined comparison of each box

  def settle(self, r, tag=0):
    """apply the decisions of a box to the result of a comparison."""
    if self.dec is None or not isb(r):
      return r
    pos, v = self.dec
    n = len(pos)
    if self.first is None:
      self.first = np.full(n, -1, np.int64)
    size = int(np.prod(r.shape))
    lo = np.array(np.broadcast_to(r.lo, (n, *r.shape)), float).reshape(n, size)
    hi = np.array(np.broadcast_to(r.hi, (n, *r.shape)), float).reshape(n, size)
    base = (self.eqns * 1000 + tag) * 100000
    w = (pos >= base) & (pos < base + size) & (pos >= 0)
    if w.any():
      i, k = np.nonzero(w)
      e = pos[i, k] - base
      und = lo[i, e] < hi[i, e]
      lo[i[und], e[und]] = v[i, k][und]
      hi[i[und], e[und]] = v[i, k][und]
    und = lo < hi
    if und.any():
      f = np.argmax(und, axis=1)
      new = und.any(axis=1) & (self.first < 0)
      self.first = np.where(new, base + f, self.first)
    q = B(lo.reshape(n, *r.shape), hi.reshape(n, *r.shape), np.zeros((n, *r.shape), bool), BOOL)
    q.ref = r.ref
    return q

  def run(self, jaxpr, consts, args):
    env = {}
    for v, c in zip(jaxpr.constvars, consts):
      env[v] = c
    for v, a in zip(jaxpr.invars, args):
      env[v] = a
    last = {}
    for i, e in enumerate(jaxpr.eqns):
      for v in e.invars:
        if not isinstance(v, Literal):
          last[v] = i
    keep = {v for v in jaxpr.outvars if not isinstance(v, Literal)}
    read = lambda v: np.asarray(v.val) if isinstance(v, Literal) else env[v]
    for i, e in enumerate(jaxpr.eqns):
      ins = [read(v) for v in e.invars]
      name = e.primitive.name
      self.eqns += 1
      self.prims[name] = self.prims.get(name, 0) + 1
      if not any(isb(x) for x in ins):
        res = self.concrete(e, ins)
      else:
        f = RULES.get(name)
        if f is None:
          sub = e.params.get('jaxpr') or e.params.get('call_jaxpr') or e.params.get('fun_jaxpr')
          if sub is None or name in ('while', 'cond', 'scan'):
            raise Unsupported(f'ieee: primitive {name}')
          f = lambda self, e, ins, sub=sub: self.sub(sub, ins)
        res = f(self, e, ins)
        if not isinstance(res, (list, tuple)):
          res = [res]
      for v, r in zip(e.outvars, res):
        if isb(r) and r.shape != tuple(v.aval.shape):
          sh = tuple(v.aval.shape)
          n = r.lo.shape[0]
          r = r.like(lambda a: np.broadcast_to(a, (n, *sh)))
        env[v] = r
      for v in e.invars:
        if not isinstance(v, Literal) and last.get(v) == i and v not in keep:
          env.pop(v, None)
    return [read(v) for v in jaxpr.outvars]

  def sub(self, sub, ins):
    if hasattr(sub, 'consts'):
      return self.run(sub.jaxpr, sub.consts, ins)
    return self.run(sub, [], ins)

  def concrete(self, eqn, ins):
    with jax.ensure_compile_time_eval():
      bp = eqn.primitive.get_bind_params(eqn.params)
      subfuns, params = bp if isinstance(bp, tuple) else ((), bp)
      r = eqn.primitive.bind(*subfuns, *[jnp.asarray(x) if isinstance(x, np.ndarray) else x for x in ins], **params)
    if not eqn.primitive.multiple_results:
      r = [r]
    return [np.asarray(x) for x in r]


def _l(ins, eqn):
  """lift operands, with box axis; scalars broadcast."""
  out = []
  nd = max(len(x.shape) if isb(x) else np.ndim(x) for x in ins)
  for x in ins:
    b = lift(x)
    d = nd - len(b.shape)
    if d:
      ix = (slice(None),) + (None,) * d
      b.al
      b = b.like(lambda a: a[ix])
    out.append(b)
  return out


def _un(f):
  return lambda self, e, ins: f(ins[0], _dt(e))


def _sat(f, at):
  """exactly +-1 from `at` on."""
  def g(x, dt):
    r = f(x, dt)
    r.lo = np.where(x.lo >= at, 1.0, np.where(x.hi <= -at, -1.0, r.lo))
    r.hi = np.where(x.lo >= at, 1.0, np.where(x.hi <= -at, -1.0, r.hi))
    return r
  return g


def saturations():
  """the platform's tanh/erf/logistic do saturate as assumed."""
  x = jnp.asarray(np.concatenate([np.linspace(20, 1000, 999), np.logspace(3, 38, 200)]), jnp.float32)
  with jax.ensure_compile_time_eval():
    y = jnp.asarray(np.concatenate([[0.0], np.logspace(-37.9, 1.9, 4000001), np.arange(1, 1 << 20) * 2.0 ** -33]), jnp.float32)
    if not bool(jnp.all(jnp.exp(y) >= 1) & jnp.all(jnp.exp(-y) <= 1) & jnp.all(jax.jit(jnp.exp)(y) >= 1) & jnp.all(jax.jit(jnp.exp)(-y) <= 1)):
      return False
    return bool(jnp.all(jnp.tanh(x) == 1) & jnp.all(jnp.tanh(-x) == -1) & jnp.all(jax.lax.erf(x) == 1) & jnp.all(jax.lax.erf(-x) == -1))


for _n, _f in dict(exp=_exp, expm1=_expm1, log=_log, log1p=_log1p, sqrt=_sqrt, rsqrt=_rsqrt,
                   tanh=_sat(mono(np.tanh, 8, -1 - 2e-7, 1 + 2e-7), 20.0),
                   logistic=mono(scipy.special.expit, 8, 0.0, 1 + 2e-7),
                   erf=_sat(mono(scipy.special.erf, 8, -1 - 2e-7, 1 + 2e-7), 20.0),
                   atan=mono(np.arctan, 8), sinh=mono(np.sinh, 16), asinh=mono(np.arcsinh, 16),
                   cbrt=mono(np.cbrt, 8), asin=lambda x, dt: _acos(x, dt, np.arcsin, False), acos=lambda x, dt: _acos(x, dt, np.arccos, True),
                   sin=_trig(np.sin, 0.0), cos=_trig(np.cos, math.pi / 2)).items():
  RULES[_n] = _un(_f)


@rule('exp2')
def _exp2(self, e, ins):
  x = ins[0]
  c = lift(np.float64(math.log(2)))
  y = B(x.lo * math.log(2), x.hi * math.log(2), x.nan, x.dtype)
  return _exp(B(y.lo - np.abs(y.lo) * 1e-15, y.hi + np.abs(y.hi) * 1e-15, y.nan, y.dtype), _dt(e))


@rule('add', 'add_any')
def _add(self, e, ins):
  x, y = _l(ins, e)
  return add(x, y, _dt(e))


@rule('sub')
def _sub(self, e, ins):
  x, y = _l(ins, e)
  if e.invars[0] is e.invars[1]:
    z = np.zeros_like(x.lo)
    return B(z, z, x.nan | (x.lo == -INF) | (x.hi == INF), _dt(e))
  return sub(x, y, _dt(e))


@rule('mul')
def _mul(self, e, ins):
  x, y = _l(ins, e)
  if e.invars[0] is e.invars[1]:
    return square(x, _dt(e))
  return mul(x, y, _dt(e))


@rule('div')
def _divr(self, e, ins):
  x, y = _l(ins, e)
  if np.dtype(_dt(e)).kind != 'f':
    raise Unsupported('integer division')
  return _div(x, y, _dt(e))


@rule('one_minus_square')
def _oms(self, e, ins):
  x = ins[0]
  q = square(x, _dt(e))
  one = lift(np.float32(1))
  # computed as 1 - x^2 or (1 - x)(1 + x)
  a = add(one, neg(q), _dt(e))
  b = mul(add(one, neg(x), _dt(e)), add(one, x, _dt(e)), _dt(e))
  return B(np.minimum(a.lo, b.lo), np.maximum(a.hi, b.hi), a.nan | b.nan, a.dtype)


@rule('neg')
def _negr(self, e, ins):
  return neg(ins[0])


@rule('sign')
def _sign(self, e, ins):
  x = ins[0]
  return B(np.sign(x.lo), np.sign(x.hi), x.nan, x.dtype)


@rule('floor')
def _floor(self, e, ins):
  x = ins[0]
  return B(np.floor(x.lo), np.floor(x.hi), x.nan, x.dtype)


@rule('ceil')
def _ceil(self, e, ins):
  x = ins[0]
  return B(np.ceil(x.lo), np.ceil(x.hi), x.nan, x.dtype)


@rule('round')
def _round(self, e, ins):
  x = ins[0]
  r = B(np.round(x.lo), np.round(x.hi), x.nan, x.dtype)
  r.rof = x.al
  return r


@rule('abs')
def _absr(self, e, ins):
  return _abs(ins[0])


@rule('square')
def _sq(self, e, ins):
  return square(ins[0], _dt(e))


@rule('integer_pow')
def _ip(self, e, ins):
  return _ipow(ins[0], int(e.params['y']), _dt(e))


@rule('pow')
def _powr(self, e, ins):
  x, y = _l(ins, e)
  if y.dtype.kind in 'iu':
    if isb(ins[1]):
      raise Unsupported('pow with symbolic integer exponent')
    ks = np.unique(np.asarray(ins[1]))
    outs, sel = [], []
    for k in ks:
      outs.append(_ipow(x, int(k), _dt(e)))
      sel.append(np.broadcast_to(y.lo == k, np.broadcast_shapes(y.lo.shape, x.lo.shape)))
    return hull(outs, sel)
  yc = np.asarray(ins[1]) if not isb(ins[1]) else None
  if yc is not None and yc.size and np.all(yc == yc.reshape(-1)[0]) and float(yc.reshape(-1)[0]).is_integer() and abs(float(yc.reshape(-1)[0])) < 64:
    r = _ipow(x, int(yc.reshape(-1)[0]), _dt(e))
    r2 = mk(r.lo, r.hi, r.nan, _dt(e), ulps=64)
    return r2
  return _pow(x, y, _dt(e))


@rule('max')
def _maxr(self, e, ins):
  x, y = _l(ins, e)
  return _max(x, y, _dt(e), self.settle)


@rule('min')
def _minr(self, e, ins):
  x, y = _l(ins, e)
  return _min(x, y, _dt(e))


@rule('clamp')
def _clamp(self, e, ins):
  a, x, b = _l(ins, e)
  return _min(_max(x, a, _dt(e)), b, _dt(e))


@rule('lt', 'le', 'gt', 'ge', 'eq', 'ne')
def _cmpr(self, e, ins):
  x, y = _l(ins, e)
  if e.invars[0] is e.invars[1] and e.primitive.name in ('eq', 'ne'):  # isnan test
    t, f = np.ones_like(x.nan), x.nan
    return boolv(t, f) if e.primitive.name == 'eq' else boolv(f, t)
  return self.settle(cmp(e.primitive.name, x, y))


@rule('is_finite')
def _isfin(self, e, ins):
  x = ins[0]
  return boolv((x.lo < INF) & (x.hi > -INF), x.nan | (x.lo == -INF) | (x.hi == INF))


class Bits(B):
  """bit pattern of a float32 (same interval)."""
  __slots__ = ()


@rule('bitcast_convert_type')
def _bitcast(self, e, ins):
  x, new = ins[0], np.dtype(e.params['new_dtype'])
  if isinstance(x, Bits) and new == np.float32:
    return B(x.lo, x.hi, x.nan, new)
  if not isinstance(x, Bits) and x.dtype == np.float32 and new.itemsize == 4 and new.kind in 'iu':
    return Bits(x.lo, x.hi, x.nan, new)
  raise Unsupported('bitcast')


@rule('and')
def _and(self, e, ins):
  if isinstance(ins[0], Bits) and not isb(ins[1]):
    m = np.unique(np.asarray(ins[1]).astype(np.int64) & 0xffffffff)
    low = (~int(m[0])) & 0xffffffff
    if len(m) == 1 and low & (low + 1) == 0 and low < 1 << 23:
      # clearing low mantissa bits rounds towards zero: monotone
      f = lambda v: (v.astype(np.float32).view(np.uint32) & np.uint32(m[0])).view(np.float32).astype(np.float64)
      x = ins[0]
      return Bits(f(x.lo), f(x.hi), x.nan, x.dtype)
    raise Unsupported('bitwise and')
  x, y = _l(ins, e)
  if np.dtype(_dt(e)).kind != 'b':
    raise Unsupported('bitwise and')
  r = B(np.minimum(x.lo, y.lo), np.minimum(x.hi, y.hi), np.zeros(np.broadcast_shapes(x.lo.shape, y.lo.shape), bool), BOOL)
  r.ref = (_side(x, 0) + _side(y, 0), [])
  return r


def _side(x, k):
  return list(x.ref[k]) if x.ref is not None else []


@rule('or')
def _or(self, e, ins):
  x, y = _l(ins, e)
  if np.dtype(_dt(e)).kind != 'b':
    raise Unsupported('bitwise or')
  r = B(np.maximum(x.lo, y.lo), np.maximum(x.hi, y.hi), np.zeros(np.broadcast_shapes(x.lo.shape, y.lo.shape), bool), BOOL)
  r.ref = ([], _side(x, 1) + _side(y, 1))
  return r


@rule('xor')
def _xor(self, e, ins):
  x, y = _l(ins, e)
  if np.dtype(_dt(e)).kind != 'b':
    raise Unsupported('bitwise xor')
  return cmp('ne', x, y)


@rule('not')
def _not(self, e, ins):
  x = ins[0]
  if x.dtype.kind != 'b':
    raise Unsupported('bitwise not')
  r = B(1 - x.hi, 1 - x.lo, x.nan, BOOL)
  if x.ref is not None:
    r.ref = (x.ref[1], x.ref[0])
  return r


@rule('select_n')
def _sel(self, e, ins):
  c, *xs = _l(ins, e)
  sel = [(c.lo <= k) & (c.hi >= k) for k in range(len(xs))]
  if c.ref is not None and c.dtype == BOOL and (self.dec is not None or (sel[0] & sel[1]).any()):
    for k in (0, 1):
      x = xs[k]
      if x.dtype != np.float32:
        continue
      lo, hi = x.lo, x.hi
      for al, l, h in c.ref[1 - k]:
        m = al == x.al
        if m.any():
          lo, hi = np.where(m, np.maximum(lo, l), lo), np.where(m, np.minimum(hi, h), hi)
      if lo is not x.lo:
        empty = lo > hi
        y = B(np.where(empty, x.lo, lo), np.where(empty, x.hi, hi), x.nan, x.dtype, x.al)
        xs[k] = y
        sel[k] = sel[k] & ~(empty & sel[1 - k] & ~x.nan)
  return hull(xs, sel)


@rule('convert_element_type')
def _conv(self, e, ins):
  x = ins[0]
  new = np.dtype(e.params['new_dtype'])
  if new.kind == 'b':
    return cmp('ne', x, B(np.zeros_like(x.lo), np.zeros_like(x.lo), np.zeros_like(x.nan), x.dtype))
  if new.kind in 'iu' and x.dtype.kind == 'f':
    info = np.iinfo(new)
    lo = np.clip(np.trunc(x.lo), info.min, info.max)
    hi = np.clip(np.trunc(x.hi), info.min, info.max)
    return B(np.where(x.nan, np.minimum(lo, 0), lo), np.where(x.nan, np.maximum(hi, 0), hi), x.nan & False, new)
  if new.kind == 'f' and new != np.float32:
    raise Unsupported(f'convert to {new}')
  if new.kind == 'f':
    return B(x.lo, x.hi, x.nan, new, x._al) if x.dtype == new else mk(x.lo, x.hi, x.nan, new)
  return B(x.lo, x.hi, x.nan, new)


@rule('stop_gradient', 'optimization_barrier', 'copy', 'copy_p', 'reduce_precision', 'sharding_constraint', 'pvary')
def _id(self, e, ins):
  return list(ins)


@rule('reshape', 'transpose', 'squeeze', 'expand_dims', 'broadcast_in_dim', 'rev', 'slice', 'concatenate',
      'split', 'pad', 'dynamic_slice', 'gather', 'dynamic_update_slice', 'scatter', 'copy_all', 'stack', 'unstack', 'tile')
def _move(self, e, ins):
  """data movement: run the primitive on element numbers."""
  name = e.primitive.name
  data = {'concatenate': range(len(ins)), 'stack': range(len(ins)), 'pad': (0, 1), 'dynamic_update_slice': (0, 1), 'scatter': (0, 2)}.get(name, (0,))
  data = set(data)
  for k, x in enumerate(ins):
    if isb(x) and k not in data:
      raise Unsupported(f'{name} with symbolic operand {k}')
  pool, new, off = [], [], 0
  n = max(x.lo.shape[0] for x in ins if isb(x))
  for k, x in enumerate(ins):
    if k in data:
      b = lift(x)
      sz = int(np.prod(b.shape))
      pool.append(b)
      new.append(jnp.asarray(np.arange(off, off + sz, dtype=np.int32).reshape(b.shape)))
      off += sz
    else:
      new.append(jnp.asarray(x))
  params = dict(e.params)
  fill = None
  if name == 'gather' and 'fill' in str(params.get('mode')).lower():
    fill = params.get('fill_value')
    params['fill_value'] = -1
  with jax.ensure_compile_time_eval():
    r = e.primitive.bind(*new, **params)
  if not e.primitive.multiple_results:
    r = [r]
  flat = [np.concatenate([np.broadcast_to(getattr(b, a), (n, *b.shape)).reshape(n, -1) for b in pool], axis=1) for a in ('lo', 'hi', 'nan', 'al')]
  outs = []
  only = pool[0] if len(pool) == 1 else None
  for y, v in zip(r, e.outvars):
    ids = np.asarray(y)
    if only is not None and not (ids < 0).any():
      only.al
      q = only.like(lambda a: np.broadcast_to(a, (a.shape[0], *only.shape)).reshape(a.shape[0], -1)[:, ids.reshape(-1)].reshape(a.shape[0], *ids.shape))
      outs.append(q)
      continue
    o = [f[:, np.clip(ids, 0, off - 1).reshape(-1)].reshape(n, *ids.shape) for f in flat]
    if (ids < 0).any():
      if fill is None:
        o[2] = o[2] | (ids < 0)[None]
      else:
        o[0], o[1], o[2] = (np.where((ids < 0)[None], z, w) for z, w in ((fill, o[0]), (fill, o[1]), (False, o[2])))
      o[3] = None
    q = B(*o[:3], v.aval.dtype, o[3])
    q.fuse = any(b.fuse for b in pool)
    outs.append(q)
  return outs


def _axes(e):
  return tuple(a + 1 for a in e.params['axes'])


@rule('reduce_sum')
def _rsum(self, e, ins):
  x = ins[0]
  return _sum_axes(x, e.params['axes'], _dt(e))


def _sum_axes(x, axes, dt):
  """any order of summation."""
  n = x.lo.shape[0]
  keep = [d for d in range(len(x.shape)) if d not in axes]
  perm = [0] + [d + 1 for d in keep] + [a + 1 for a in axes]
  sh = [x.shape[d] for d in keep]
  f = lambda a: np.transpose(a, perm).reshape(n, *sh, -1)
  lo, hi, nan = f(x.lo), f(x.hi), f(x.nan)
  if lo.shape[-1] == 0:
    z = np.zeros((n, *sh))
    return B(z, z, z > 0, np.dtype(dt))
  if lo.shape[-1] == 1:
    return B(lo[..., 0], hi[..., 0], nan[..., 0], np.dtype(dt))
  if np.dtype(dt).kind != 'f':
    return B(lo.sum(-1), hi.sum(-1), nan.any(-1), np.dtype(dt))
  pinf = (hi == INF)
  ninf = (lo == -INF)
  nan = nan.any(-1) | (pinf.any(-1) & ninf.any(-1))
  with np.errstate(all='ignore'):
    slo, shi = lo.sum(-1), hi.sum(-1)
    slo = np.where(np.isnan(slo), -INF, slo)
    shi = np.where(np.isnan(shi), INF, shi)
    # error of summation in any order
    mag = np.maximum(np.abs(lo), np.abs(hi)).sum(-1) * (lo.shape[-1] * 1.2e-7)
    cnt = ((lo != 0) | (hi != 0)).sum(-1)
    mag = np.where((cnt > 1) & np.isfinite(mag), mag, 0.0)
    nonneg = (lo >= 0).all(-1)
    nonpos = (hi <= 0).all(-1)
    # a sum of non-negative terms is at least each of them
    l2 = np.where(nonneg, np.maximum(slo - mag, lo.max(-1)), slo - mag)
    h2 = np.where(nonpos, np.minimum(shi + mag, hi.min(-1)), shi + mag)
    # partial sums may overflow in some orders
    over = np.maximum(np.abs(lo), np.abs(hi)).sum(-1) > MAX
    ov = over & ~nonneg & ~nonpos & np.isfinite(mag)
    l2 = np.where(ov, -INF, l2)
    h2 = np.where(ov, INF, h2)
    nan = nan | ov
  return mk(l2, h2, nan, dt, rnd='out')


@rule('reduce_max')
def _rmax(self, e, ins):
  x, a = ins[0], _axes(e)
  if x.dtype == np.float32 and len(a) == 1 and x.shape[a[0] - 1] <= 8 and x.lo.shape[0] > 0:
    x.al
    acc = None
    for k in range(x.shape[a[0] - 1]):
      t = x.like(lambda v: np.take(np.broadcast_to(v, (v.shape[0], *x.shape)), k, axis=a[0]))
      acc = t if acc is None else _max(acc, t, _dt(e), lambda d, k=k: self.settle(d, k))
    return acc
  return B(x.lo.max(a), x.hi.max(a), x.nan.any(a), x.dtype)


@rule('reduce_min')
def _rmin(self, e, ins):
  x, a = ins[0], _axes(e)
  return B(x.lo.min(a), x.hi.min(a), x.nan.any(a), x.dtype)


@rule('reduce_and')
def _rand(self, e, ins):
  x, a = ins[0], _axes(e)
  return B(x.lo.min(a), x.hi.min(a), x.nan.any(a), x.dtype)


@rule('reduce_or')
def _ror(self, e, ins):
  x, a = ins[0], _axes(e)
  return B(x.lo.max(a), x.hi.max(a), x.nan.any(a), x.dtype)


@rule('reduce_prod')
def _rprod(self, e, ins):
  x, axes = ins[0], e.params['axes']
  for a in sorted(axes, reverse=True):
    acc = None
    for k in range(x.shape[a]):
      t = B(*[np.take(v, k, axis=a + 1) for v in (x.lo, x.hi, x.nan)], x.dtype)
      acc = t if acc is None else mul(acc, t, _dt(e))
    x = acc
  return x


@rule('cumsum', 'cumprod', 'cummax', 'cumlogsumexp')
def _cum(self, e, ins):
  x = ins[0]
  ax, rev = e.params['axis'], e.params['reverse']
  op = dict(cumsum=add, cumprod=mul, cummax=_max)[e.primitive.name]
  n = x.shape[ax]
  outs = [None] * n
  acc = None
  for k in (range(n - 1, -1, -1) if rev else range(n)):
    t = B(*[np.take(v, k, axis=ax + 1) for v in (x.lo, x.hi, x.nan)], x.dtype)
    acc = t if acc is None else op(acc, t, _dt(e))
    outs[k] = acc
  # associative scans use another order; allow for rounding
  st = [np.stack([getattr(o, a) for o in outs], axis=ax + 1) for a in ('lo', 'hi', 'nan')]
  return mk(*st, _dt(e), ulps=0 if e.primitive.name == 'cummax' else n)


@rule('dot_general')
def _dot(self, e, ins):
  x, y = lift(ins[0]), lift(ins[1])
  (cx, cy), (bx, by) = e.params['dimension_numbers']
  fx = [d for d in range(len(x.shape)) if d not in cx and d not in bx]
  fy = [d for d in range(len(y.shape)) if d not in cy and d not in by]

  def arr(v, b, f, c, left):
    n = v.lo.shape[0]
    perm = [0] + [d + 1 for d in (*b, *f, *c)]
    sb, sf, sc = ([v.shape[d] for d in s] for s in (b, f, c))
    out = []
    for a in (v.lo, v.hi, v.nan):
      a = np.transpose(a, perm).reshape(n, *sb, int(np.prod(sf)), int(np.prod(sc)))
      out.append(a[..., :, None, :] if left else a[..., None, :, :])
    return B(*out, v.dtype), sb, sf
  X, sb, sfx = arr(x, bx, fx, cx, True)
  Y, _, sfy = arr(y, by, fy, cy, False)
  p = mul(X, Y, _dt(e))
  s = _sum_axes(p, (len(p.shape) - 1,), _dt(e))
  n = s.lo.shape[0]
  sh = (n, *sb, *sfx, *sfy)
  return B(s.lo.reshape(sh), s.hi.reshape(sh), s.nan.reshape(sh), _dt(e))


@rule('scatter-add', 'scatter_add', 'scatter-mul', 'scatter_mul', 'scatter_max', 'scatter-max', 'scatter_min', 'scatter-min')
def _scatter_op(self, e, ins):
  x, idx, u = ins
  if isb(idx):
    raise Unsupported('scatter with symbolic indices')
  x, u = lift(x), lift(u)
  kind = e.primitive.name[8:]
  n = max(x.lo.shape[0], u.lo.shape[0])
  # which update elements reach which element: the transpose (gather) of numbered elements
  xs = int(np.prod(x.shape))
  us = int(np.prod(u.shape))
  ids = jnp.arange(xs, dtype=jnp.float32).reshape(x.shape)
  p = dict(e.params)
  p['update_jaxpr'] = p.get('update_jaxpr')
  with jax.ensure_compile_time_eval():
    lin = lambda v: jax.lax.scatter_add(jnp.zeros(x.shape, jnp.float32), jnp.asarray(idx), v.reshape(u.shape), p['dimension_numbers'], indices_are_sorted=False, unique_indices=False, mode=p.get('mode'))
    M = np.asarray(jax.vmap(lin)(jnp.eye(us, dtype=jnp.float32))).reshape(us, xs)
  op = dict(add=add, mul=mul, max=_max, min=_min)[kind]
  dt = _dt(e)
  col = lambda b, shape, sz, k: (b.al, b.like(lambda a: np.broadcast_to(a, (a.shape[0], *shape)).reshape(a.shape[0], sz)[:, k]))[1]
  cols = [col(x, x.shape, xs, i) for i in range(xs)]
  tag = 0
  for j in range(us):
    for i in np.nonzero(M[j])[0]:
      tag += 1
      kw = dict(settle=lambda d, tag=tag: self.settle(d, tag)) if kind == 'max' else {}
      cols[i] = op(cols[i], col(u, u.shape, us, j), dt, **kw)
  sh = (n, *x.shape)
  full = lambda a: np.broadcast_to(a, (n,))
  st = [np.stack([full(getattr(c, a)) for c in cols], axis=1).reshape(sh) for a in ('lo', 'hi', 'nan')]
  if kind in ('max', 'min'):
    r = B(*st, dt, np.stack([full(c.al) for c in cols], axis=1).reshape(sh))
    G = max(len(c.geq) for c in cols)
    pad = np.zeros(n, np.int64)
    r.geq = tuple(np.stack([full(c.geq[g]) if g < len(c.geq) else pad for c in cols], axis=1).reshape(sh) for g in range(G))
    return r
  if xs == us and all(M.sum(0) <= 1):
    return B(*st, dt, np.stack([full(c.al) for c in cols], axis=1).reshape(sh))
  return mk(*st, dt, ulps=us)


@rule('custom_jvp_call', 'custom_vjp_call')
def _cust(self, e, ins):
  return self.sub(e.params.get('call_jaxpr') or e.params.get('fun_jaxpr') or e.params.get('jaxpr'), ins)


@rule('polynomial')
def _poly(self, e, ins):
  x, cs = lift(ins[0]), ins[1:]
  r = lift(cs[-1])
  for c in cs[-2::-1]:
    a, b = _l([mul(*_l([r, x], e), _dt(e)), c], e)
    r = add(a, b, _dt(e))
  return r


@rule('cond')
def _cond(self, e, ins):
  c, ops = ins[0], ins[1:]
  br = e.params['branches']
  if not isb(c):
    return self.sub(br[int(np.clip(int(np.asarray(c)), 0, len(br) - 1))], ops)
  outs = [self.sub(b, ops) for b in br]
  res = []
  for vals in zip(*outs):
    vals = [lift(v) for v in vals]
    ix = (slice(None),) + (None,) * len(vals[0].shape)
    res.append(hull(vals, [((c.lo <= k) & (c.hi >= k))[ix] for k in range(len(br))]))
  return res


@rule('scan')
def _scan(self, e, ins):
  p = e.params
  nc, ncar, length, rev = p['num_consts'], p['num_carry'], p['length'], p['reverse']
  consts, carry, xs = ins[:nc], list(ins[nc:nc + ncar]), ins[nc + ncar:]
  nout = len(e.outvars) - ncar
  ys = [[None] * length for _ in range(nout)]
  at = lambda x, t: B(x.lo[:, t], x.hi[:, t], x.nan[:, t], x.dtype) if isb(x) else np.asarray(x)[t]
  for t in (range(length - 1, -1, -1) if rev else range(length)):
    out = self.sub(p['jaxpr'], [*consts, *carry, *[at(x, t) for x in xs]])
    carry = list(out[:ncar])
    for j, y in enumerate(out[ncar:]):
      ys[j][t] = y
  res = list(carry)
  for j, col in enumerate(ys):
    if any(isb(y) for y in col):
      col = [lift(y) for y in col]
      n = max(y.lo.shape[0] for y in col)
      st = [np.stack([np.broadcast_to(getattr(y, a), (n, *y.shape)) for y in col], axis=1) for a in ('lo', 'hi', 'nan')]
      res.append(B(*st, col[0].dtype))
    else:
      res.append(np.stack([np.asarray(y) for y in col]))
  return res


@rule('while')
def _while(self, e, ins):
  p = e.params
  cn, bn = p['cond_nconsts'], p['body_nconsts']
  cc, bc, carry = ins[:cn], ins[cn:cn + bn], list(ins[cn + bn:])
  for _ in range(500):
    c, = self.sub(p['cond_jaxpr'], [*cc, *carry])
    if isb(c):
      raise Unsupported('while with symbolic condition')
    if not bool(np.asarray(c)):
      return carry
    carry = self.sub(p['body_jaxpr'], [*bc, *carry])
  raise Unsupported('while loop')


# -- branch and prune ------------------------------------------------------------
def key(x):
  """monotone integer key of a float32."""
  b = np.asarray(x, np.float32).view(np.int32).astype(np.int64)
  return np.where(b >= 0, b, -(b & 0x7fffffff))


def unkey(k):
  k = np.asarray(k, np.int64)
  return np.where(k >= 0, k, -k | 0x80000000).astype(np.uint32).view(np.float32)


KT = int(key(TINY))


def pieces(lo, hi, floor=TINY):
  """split a range into negative numbers, zero and positive numbers of magnitude at least floor."""
  out = []
  KT = int(key(floor))
  if lo < 0:
    out.append((int(key(lo)), min(int(key(hi)), -KT) if hi < 0 else -KT))
  if lo <= 0 <= hi:
    out.append((0, 0))
  if hi > 0:
    out.append((max(int(key(lo)), KT) if lo > 0 else KT, int(key(hi))))
  return [(a, b) for a, b in out if a <= b]


class Outcome:

  def __init__(self):
    self.boxes = 0
    self.discharged = 0
    self.undecided = []
    self.open = 0
    self.examples = []
    self.violation = None
    self.eqns = 0
    self.prims = {}
    self.time = 0.0


def decide(fn, ranges, bad=None, max_boxes=2_000_000, max_time=60.0, chunk=4096, fork=1 << 20):
  """No output of fn(*scalars) is NaN or infinite for scalars in the ranges.

  fn takes len(ranges) float32 scalars.
  """
  t0 = time.time()
  D = len(ranges)
  out = Outcome()
  avals = [jax.ShapeDtypeStruct((), jnp.float32)] * D
  cj = jax.make_jaxpr(fn)(*avals)
  out.eqns = len(cj.jaxpr.eqns)
  for v in cj.jaxpr.outvars:
    if v.aval.dtype == jnp.float64:
      raise Unsupported('float64 output')
  rf = jax.jit(jax.vmap(lambda *a: jnp.stack([jnp.any(~jnp.isfinite(y)) for y in jax.tree_util.tree_leaves(fn(*a)) if jnp.issubdtype(y.dtype, jnp.floating)]).any()))

  def real_bad(pts):
    m = len(pts)
    pad = 1 << max(0, (m - 1).bit_length())
    p = np.concatenate([pts, np.repeat(pts[:1], pad - m, 0)])
    return np.asarray(rf(*[jnp.asarray(p[:, d]) for d in range(D)]))[:m]

  def confirm(pt):
    a = [jnp.float32(v) for v in pt]
    for how, f in (('eager', fn), ('jit', jax.jit(fn))):
      ys = jax.tree_util.tree_leaves(f(*a))
      if any(not np.all(np.isfinite(np.asarray(y, np.float64))) for y in ys if jnp.issubdtype(jnp.asarray(y).dtype, jnp.floating)):
        return how, [np.asarray(y).tolist() for y in ys]
    return None

  K = 6
  start = [np.array(c, np.int64)[None] for c in itertools.product(*[pieces(*r) for r in ranges])]  # (1, D, 2)
  stack = []
  if start:
    start = np.concatenate(start)
    stack = [(start, np.full((len(start), K), -1, np.int64), np.zeros((len(start), K)))]
  tested = 0
  forks = False
  while stack:
    cur, dp, dv = stack.pop()
    if len(cur) > chunk:
      stack.append((cur[chunk:], dp[chunk:], dv[chunk:]))
      cur, dp, dv = cur[:chunk], dp[:chunk], dv[:chunk]
    if out.boxes > max_boxes or time.time() - t0 > max_time:
      out.open += len(cur) + sum(len(c[0]) for c in stack)
      out.examples = unkey(cur[:3]).tolist()
      break
    out.boxes += len(cur)
    ins = []
    for d in range(D):
      lo, hi = unkey(cur[:, d, 0]).astype(np.float64), unkey(cur[:, d, 1]).astype(np.float64)
      ins.append(B(lo, hi, np.zeros(len(cur), bool), np.float32))
    small = (cur[:, :, 1] - cur[:, :, 0]).max(1) <= fork
    it = Interp((dp, dv) if small.any() else None)
    res = it.run(cj.jaxpr, cj.consts, ins)
    out.prims = it.prims
    isbad = np.zeros(len(cur), bool)
    for r in res:
      r = lift(r)
      if r.dtype.kind != 'f':
        continue
      b = (r.nan | (r.lo == -INF) | (r.hi == INF)).reshape(r.lo.shape[0], -1).any(1)
      isbad |= b
    out.discharged += int((~isbad).sum())
    first = it.first if it.first is not None else np.full(len(cur), -1, np.int64)
    cur, dp, dv, first, small = cur[isbad], dp[isbad], dv[isbad], first[isbad], small[isbad]
    if not len(cur):
      continue
    mid = (cur[:, :, 0] + cur[:, :, 1]) // 2
    pts = [mid]
    if tested < 20000:
      pts += [cur[:, :, 0], cur[:, :, 1]]
    P = unkey(np.concatenate(pts))
    tested += len(P)
    rb = real_bad(P)
    for k in np.nonzero(rb)[0][:5]:
      c = confirm(P[k])
      if c:
        out.violation = ([float(v) for v in P[k]], c)
        out.time = time.time() - t0
        return out
    w = cur[:, :, 1] - cur[:, :, 0]
    # small boxes: decide an undecided comparison both ways before splitting further
    slot = (dp >= 0).sum(1)
    fk = small & (first >= 0) & (slot < K)
    if fk.any():
      c2, p2, v2, s2, f2 = cur[fk], dp[fk], dv[fk], slot[fk], first[fk]
      j = np.arange(len(c2))
      p2 = p2.copy()
      p2[j, s2] = f2
      v3 = v2.copy()
      v3[j, s2] = 1.0
      stack.append((np.concatenate([c2, c2]), np.concatenate([p2, p2]), np.concatenate([v2, v3])))
      cur, dp, dv, w = cur[~fk], dp[~fk], dv[~fk], w[~fk]
      if not len(cur):
        continue
    ax = np.argmax(w, axis=1)
    wm = w[np.arange(len(cur)), ax]
    pt = wm == 0
    for p in cur[pt]:
      if len(out.undecided) < 100:
        out.undecided.append([float(v) for v in unkey(p[:, 0])])
      else:
        out.open += 1
    cur, ax, dp, dv = cur[~pt], ax[~pt], dp[~pt], dv[~pt]
    if not len(cur):
      continue
    i = np.arange(len(cur))
    m = (cur[i, ax, 0] + cur[i, ax, 1]) // 2
    a, b = cur.copy(), cur.copy()
    a[i, ax, 1] = m
    b[i, ax, 0] = m + 1
    stack.append((np.concatenate([a, b]), np.concatenate([dp, dp]), np.concatenate([dv, dv])))
  out.time = time.time() - t0
  return out
