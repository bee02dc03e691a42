"""Independent reference objects (no e3x code), written with jax.numpy.

Real spherical harmonics are built here from the associated Legendre
recurrences; rotation representations are obtained from those polynomials.
"""
import functools
import math
from fractions import Fraction

import jax.numpy as jnp
import numpy as np


# -- polynomial helper on dict {(i,j,k): coef} ----------------------------------
def _pm(a, b):
  r = {}
  for (i, j, k), c in a.items():
    for (l, m, n), d in b.items():
      t = (i + l, j + m, k + n)
      r[t] = r.get(t, 0) + c * d
  return r


def _pa(a, b, s=1):
  r = dict(a)
  for k, v in b.items():
    r[k] = r.get(k, 0) + s * v
  return {k: v for k, v in r.items() if v != 0}


def _ps(a, s):
  return {k: v * s for k, v in a.items()}


@functools.lru_cache(None)
def racah_poly(l, m):
  """Solid harmonic (Racah normalised) as {(px,py,pz): float}; m in -l..l.

  m > 0: ~ cos(m phi), m < 0: ~ sin(|m| phi), without Condon-Shortley phase.
  """
  am = abs(m)
  # A_m + i B_m = (x + i y)^m
  re, im = {(0, 0, 0): 1}, {}
  x, y = {(1, 0, 0): 1}, {(0, 1, 0): 1}
  for _ in range(am):
    re, im = _pa(_pm(re, x), _pm(im, y), -1), _pa(_pm(re, y), _pm(im, x))
  xy = re if m >= 0 else im
  # Pi_l^m(z, r^2) = sum_k gamma_k r^2k z^(l-2k-m)
  r2 = {(2, 0, 0): 1, (0, 2, 0): 1, (0, 0, 2): 1}
  pi = {}
  r2k = {(0, 0, 0): 1}
  for k in range((l - am) // 2 + 1):
    g = Fraction((-1) ** k * math.comb(l, k) * math.comb(2 * l - 2 * k, l)
                 * math.factorial(l - 2 * k),
                 2 ** l * math.factorial(l - 2 * k - am))
    pi = _pa(pi, _ps(_pm(r2k, {(0, 0, l - 2 * k - am): 1}), g))
    r2k = _pm(r2k, r2)
  n = math.sqrt((1 if m == 0 else 2) * math.factorial(l - am) / math.factorial(l + am))
  p = _pm(pi, xy)
  return {k: float(v) * n for k, v in p.items() if v != 0}


def order_ms(l, cartesian_order):
  """Orders m of one degree in the requested order."""
  if not cartesian_order:
    return list(range(-l, l + 1))
  # e3x Cartesian order: l, -l, l-1, -(l-1), ..., 1, -1, 0  (x, y, z for l=1)
  out = []
  for m in range(l, 0, -1):
    out += [m, -m]
  return out + [0]


def harmonics(r, max_degree, cartesian_order=True, normalization='racah', degrees=None):
  """Solid harmonics of r (...,3) from the closed formula."""
  x, y, z = r[..., 0], r[..., 1], r[..., 2]
  pw = []
  for v in (x, y, z):
    p = [jnp.ones_like(v)]
    for _ in range(max_degree):
      p.append(p[-1] * v)
    pw.append(p)
  out = []
  for l in (degrees if degrees is not None else range(max_degree + 1)):
    for m in order_ms(l, cartesian_order):
      acc = 0.0
      for (i, j, k), c in racah_poly(l, m).items():
        acc = acc + c * (pw[0][i] * pw[1][j] * pw[2][k])
      out.append(acc * norm_const(normalization, l) * jnp.ones_like(x))
  return jnp.stack(out, axis=-1)


def norm_const(normalization, l):
  return {'4pi': math.sqrt(2 * l + 1),
          'orthonormal': math.sqrt((2 * l + 1) / (4 * math.pi)),
          'racah': 1.0, 'schmidt': 1.0}[normalization]


# -- rotations -----------------------------------------------------------------
def axis_rot(cs, axis):
  """Rotation (row-vector convention r @ R) about a coordinate axis."""
  c, s = cs[0], cs[1]
  o, n = jnp.ones_like(c), jnp.zeros_like(c)
  # counterclockwise: column-vector matrix M; r @ R with R = M^T
  if axis == 'x':
    rows = [[o, n, n], [n, c, s], [n, -s, c]]
  elif axis == 'y':
    rows = [[c, n, -s], [n, o, n], [s, n, c]]
  else:
    rows = [[c, s, n], [-s, c, n], [n, n, o]]
  return jnp.stack([jnp.stack(r) for r in rows])


def quat_rot(q):
  """r @ R for the unit quaternion q = (r, i, j, k)."""
  r, i, j, k = q[0], q[1], q[2], q[3]
  m = [[1 - 2 * (j * j + k * k), 2 * (i * j - k * r), 2 * (i * k + j * r)],
       [2 * (i * j + k * r), 1 - 2 * (i * i + k * k), 2 * (j * k - i * r)],
       [2 * (i * k - j * r), 2 * (j * k + i * r), 1 - 2 * (i * i + j * j)]]
  m = jnp.stack([jnp.stack(x) for x in m])
  return m.T


@functools.lru_cache(None)
def _sample_points(l):
  rng = np.random.default_rng(12345 + l)
  v = rng.normal(size=(6 * l + 8, 3))
  return v / np.linalg.norm(v, axis=-1, keepdims=True)


def _np_harm(r, l, cartesian_order):
  out = []
  for m in order_ms(l, cartesian_order):
    acc = 0.0
    for (i, j, k), c in racah_poly(l, m).items():
      acc = acc + c * r[..., 0] ** i * r[..., 1] ** j * r[..., 2] ** k
    out.append(acc * np.ones(r.shape[:-1]))
  return np.stack(out, -1)


@functools.lru_cache(None)
def generator(l, axis, cartesian_order):
  """Skew matrix G with Y(r @ R(t)) = Y(r) @ expm(t G)."""
  pts = _sample_points(l)
  Y = _np_harm(pts, l, cartesian_order)

  def D(t):
    c, s = math.cos(t), math.sin(t)
    R = {'x': [[1, 0, 0], [0, c, s], [0, -s, c]],
         'y': [[c, 0, -s], [0, 1, 0], [s, 0, c]],
         'z': [[c, s, 0], [-s, c, 0], [0, 0, 1]]}[axis]
    Y2 = _np_harm(pts @ np.array(R, float), l, cartesian_order)
    return np.linalg.lstsq(Y, Y2, rcond=None)[0]
  # D(t) = sum_{|k|<=l} c_k e^{ikt}: exact derivative from samples
  n = 2 * l + 1
  ts = 2 * np.pi * np.arange(n) / n
  Ds = np.stack([D(t) for t in ts])
  ck = np.fft.fft(Ds, axis=0) / n
  ks = np.fft.fftfreq(n, 1 / n)
  G = np.real(np.tensordot(1j * ks, ck, axes=(0, 0)))
  G[np.abs(G) < 1e-10] = 0
  return 0.5 * (G - G.T)


@functools.lru_cache(None)
def fourier(l, axis, cartesian_order):
  """Coefficient matrices: D(t) = A0 + sum_k (A_k cos kt + B_k sin kt)."""
  pts = _sample_points(l)
  Y = _np_harm(pts, l, cartesian_order)
  n = 2 * l + 1
  Ds = []
  for t in 2 * np.pi * np.arange(n) / n:
    c, s = math.cos(t), math.sin(t)
    R = {'x': [[1, 0, 0], [0, c, s], [0, -s, c]],
         'y': [[c, 0, -s], [0, 1, 0], [s, 0, c]],
         'z': [[c, s, 0], [-s, c, 0], [0, 0, 1]]}[axis]
    Y2 = _np_harm(pts @ np.array(R, float), l, cartesian_order)
    Ds.append(np.linalg.lstsq(Y, Y2, rcond=None)[0])
  Ds = np.stack(Ds)
  ck = np.fft.fft(Ds, axis=0) / n
  A = [np.real(ck[0])]
  B = [np.zeros_like(A[0])]
  for k in range(1, l + 1):
    A.append(np.real(ck[k] + ck[-k]))
    B.append(np.real(1j * (ck[k] - ck[-k])))
  A, B = np.stack(A), np.stack(B)
  A[np.abs(A) < 1e-11] = 0
  B[np.abs(B) < 1e-11] = 0
  return A, B


def cos_sin_multiples(cs, l):
  """[(cos kt, sin kt)] for k = 0..l by angle addition."""
  c, s = cs[0], cs[1]
  out = [(jnp.ones_like(c), jnp.zeros_like(c))]
  for _ in range(l):
    a, b = out[-1]
    out.append((a * c - b * s, a * s + b * c))
  return out


def dmat(cs, max_degree, axis, cartesian_order=True):
  """Block-diagonal representation matrix of the rotation about an axis."""
  n = (max_degree + 1) ** 2
  mult = cos_sin_multiples(cs, max_degree)
  blocks = []
  D = jnp.zeros((n, n), dtype=cs.dtype)
  for l in range(max_degree + 1):
    A, B = fourier(l, axis, cartesian_order)
    blk = sum(A[k] * mult[k][0] + B[k] * mult[k][1] for k in range(l + 1))
    D = D.at[l * l:(l + 1) ** 2, l * l:(l + 1) ** 2].set(blk)
  return D


def dblock(cs, l, axis, cartesian_order=True):
  mult = cos_sin_multiples(cs, l)
  A, B = fourier(l, axis, cartesian_order)
  return sum(A[k] * mult[k][0] + B[k] * mult[k][1] for k in range(l + 1))


@functools.lru_cache(None)
def ts_basis(l, cartesian_order):
  """(2l+1, 3, ..., 3): T(r) = sum_m R_m(r) B_m is the traceless part of r^l."""
  out = []
  dff = 1.0
  for k in range(2 * l - 1, 0, -2):
    dff *= k
  for m in order_ms(l, cartesian_order):
    p = racah_poly(l, m)
    B = np.zeros((3,) * l if l else (1,))
    if l == 0:
      B[0] = p[(0, 0, 0)]
    for idx in (np.ndindex(*B.shape) if l else ()):
      e = tuple(idx.count(a) for a in range(3))
      # d^l/dk_idx of a homogeneous polynomial of degree l
      B[idx] = p.get(e, 0.0) * math.prod(math.factorial(v) for v in e) / dff
    out.append(B)
  return np.stack(out)
