"""C09: safe norm and normalize."""
import itertools
import jax
import jax.numpy as jnp
import numpy as np
import e3x
from sx import harness as H

INFO = dict(
    functions=['e3x.ops.norm', 'its custom derivative rule', 'e3x.ops.normalize', 'e3x.ops.normalize_and_return_norm'],
    bounds='all real vectors with entries up to 1e6 in magnitude (derivative identities: nonzero vectors of length 1e-3..1e3, and exactly zero vectors), arrays of rank 1..3, every axis choice and keepdims; first and second derivatives (forward and reverse mode) along all directions',
    outside='overflow/underflow in float arithmetic (C19); nonzero vectors with squared norm below the smallest normal number (left unnormalised by design); complex dtypes',
    explanation='The squared norm, its derivative and second derivative satisfy polynomial identities over all inputs; zero rows are substituted exactly.',
    assumptions=['real arithmetic'])

AX = {
    (3,): [None, 0, -1, (0,)],
    (2, 3): [None, -1, 1, 0, (0, 1), (1,)],
    (2, 2, 2): [None, -1, 1, 0, (0, 2), (1, 2), (-1, -2)],
}


def _red(v, axis, keepdims):
  return jnp.sum(v, axis=axis, keepdims=keepdims)


def _value(shape, axis, keepdims):
  def build():
    def prog(x):
      n = e3x.ops.norm(x, axis=axis, keepdims=keepdims)
      H.static('dtype', n.dtype == x.dtype, str(n.dtype))
      return [H.eq('norm^2', n * n, _red(x * x, axis, keepdims)), H.true('norm >= 0', n >= 0)]
    return H.Case('', dict(x=H.Real(shape)), prog)
  return build


def _deriv(shape, axis, keepdims):
  def build():
    def prog(x, v):
      f = lambda t: e3x.ops.norm(t, axis=axis, keepdims=keepdims)
      n, d = jax.jvp(f, (x,), (v,))
      _, g = jax.jvp(f, (jnp.zeros_like(x),), (v,))
      H.static('shape', d.shape == n.shape, str(d.shape))
      w = jnp.ones_like(n)
      gr, = jax.vjp(f, x)[1](w)
      nk = n if keepdims or axis is None else jnp.expand_dims(n, axis)
      return [H.eq("norm * norm' = x.v", n * d, _red(x * v, axis, keepdims)),
              H.eq('derivative at 0', g, jnp.zeros_like(g)),
              H.eq('gradient', gr * nk, x)]
    return H.Case('', dict(x=H.Real(shape, -100, 100), v=H.Real(shape, -100, 100)), prog,
                  assume=lambda x, v: _red(x * x, axis, keepdims) >= 1e-6, coef_tol=1e-12, drop=1e-15)
  return build


def _second():
  def build():
    def prog(x, v, w):
      f = lambda t: e3x.ops.norm(t, axis=-1)
      d1 = lambda t: jax.jvp(f, (t,), (v,))[1]
      n = f(x)
      a = d1(x)
      b = jax.jvp(f, (x,), (w,))[1]
      h = jax.jvp(d1, (x,), (w,))[1]
      out = [H.eq('second derivative', n * h + a * b, jnp.sum(v * w))]
      z = jnp.zeros(3, x.dtype)
      out.append(H.true('finite at 0', jnp.isfinite(jax.jvp(d1, (z,), (w,))[1])))
      g = jax.grad(lambda t: jnp.sum(jax.grad(f)(t) * v))(x)
      out.append(H.eq('hessian product', jnp.sum(g * w), h))
      return out
    return H.Case('', dict(x=H.UnitVec(scale=(1e-3, 1e3)), v=H.Real((3,), -10, 10), w=H.Real((3,), -10, 10)), prog)
  return build


def _zero_rows():
  """a zero row next to an arbitrary one."""
  def build():
    def prog(x, v):
      X = jnp.stack([jnp.zeros(3, x.dtype), x])
      out = []
      f = lambda t: e3x.ops.norm(t, axis=-1)
      n, d = jax.jvp(f, (X,), (v,))
      out += [H.eq('norm', n[0], 0.0), H.eq('derivative', d[0], 0.0), H.eq('other row', n[1] * d[1], jnp.sum(x * v[1]))]
      g = jax.grad(lambda t: jnp.sum(f(t)))(X)
      out += [H.eq('gradient', g[0], jnp.zeros(3))]
      h = lambda t: e3x.ops.normalize(t, axis=-1)
      y, yd = jax.jvp(h, (X,), (v,))
      out += [H.eq('normalize', y[0], jnp.zeros(3)), H.true('finite derivative', jnp.isfinite(yd[0])),
              H.eq('normalize other', y[1] * n[1], x)]
      gy = jax.grad(lambda t: jnp.sum(h(t) * v))(X)
      out += [H.true('finite gradient', jnp.isfinite(gy[0]))]
      hy = jax.jvp(lambda t: jax.jvp(h, (t,), (v,))[1], (X,), (v,))[1]
      out += [H.true('finite second derivative', jnp.isfinite(hy[0]))]
      return out
    return H.Case('', dict(x=H.UnitVec(scale=(1e-3, 1e3)), v=H.Real((2, 3), -10, 10)), prog)
  return build


def _normalize(shape, axis, keepdims):
  def build():
    def prog(x):
      y, n = e3x.ops.normalize_and_return_norm(x, axis=axis, keepdims=keepdims)
      z = e3x.ops.normalize(x, axis=axis)
      H.static('shape', y.shape == x.shape and z.shape == x.shape, f'{y.shape}, {z.shape}')
      ref = _red(x * x, axis, keepdims)
      nk = n if keepdims or axis is None else jnp.expand_dims(n, axis)
      return [H.eq('norm^2', n * n, ref), H.true('norm >= 0', n >= 0), H.eq('y * norm', y * nk, x), H.eq('normalize', z * nk, x),
              H.eq('unit', _red(y * y, axis, keepdims), jnp.ones_like(n))]
    return H.Case('', dict(x=H.Real(shape, -100, 100)), prog, coef_tol=1e-12, drop=1e-15,
                  assume=lambda x: _red(x * x, axis, keepdims) >= 1e-6)
  return build


def _normalize_deriv(order):
  def build():
    def prog(x, v):
      f = lambda t: e3x.ops.normalize(t, axis=-1)
      n = jnp.sqrt(jnp.sum(x * x))
      if order == 1:
        y, d = jax.jvp(f, (x,), (v,))
        return [H.eq('derivative', d * n, v - y * jnp.sum(y * v)),
                H.eq('gradient', n * jax.grad(lambda t: jnp.sum(f(t) * v))(x), v - y * jnp.sum(y * v))]
      y = f(x)
      d1 = lambda t: jax.jvp(f, (t,), (v,))[1]
      d = d1(x)
      h = jax.jvp(d1, (x,), (v,))[1]
      # differentiate n d = v - y (y.v) along v
      nd = jnp.sum(y * v)
      return [H.eq('second derivative', nd * d + n * h, -d * nd - y * jnp.sum(d * v))]
    return H.Case('', dict(x=H.UnitVec(scale=(1e-2, 1e2)), v=H.Real((3,), -10, 10)), prog)
  return build


def _small(lo, hi):
  """direction results do not depend on the magnitude."""
  def build():
    def prog(u, s, v):
      x = s * u
      n, d = jax.jvp(lambda t: e3x.ops.norm(t, axis=-1), (x,), (v,))
      y, m = e3x.ops.normalize_and_return_norm(x, axis=-1)
      return [H.eq('norm / s', n / s, 1.0), H.eq("norm'", d, jnp.sum(u * v)), H.eq('unit vector', y, u),
              H.eq('returned norm', m / s, 1.0), H.eq('normalize', e3x.ops.normalize(x, axis=-1), u)]
    return H.Case('', dict(u=H.UnitVec(), s=H.Real((), lo, hi, srange=(lo, hi)), v=H.Real((3,), -10, 10)), prog, coef_tol=1e-14, drop=1e-16)
  return build


def _scale():
  """norm is absolutely homogeneous over widely different magnitudes."""
  def build():
    def prog(x, s):
      n = e3x.ops.norm(x * s, axis=-1)
      return [H.eq('homogeneous', n * n, s * s * jnp.sum(x * x))]
    return H.Case('', dict(x=H.UnitVec(), s=H.Real((), 1e-6, 1e6)), prog)
  return build


def cases(tier):
  out = []
  for shape, axes in AX.items():
    for ax in axes:
      for kd in (False, True):
        t = f'{"x".join(map(str, shape))}-{str(ax).replace(" ", "")}{"-keep" if kd else ""}'
        out.append((f'value-{t}', _value(shape, ax, kd)))
        if shape != (2, 2, 2) or ax in (-1, (0, 2), 1):
          out.append((f'deriv-{t}', _deriv(shape, ax, kd)))
        if not (shape == (2, 2, 2) and ax is None):
          out.append((f'normalize-{t}', _normalize(shape, ax, kd)))
  out.append(('second', _second()))
  out.append(('zero-rows', _zero_rows()))
  out.append(('normalize-d1', _normalize_deriv(1)))
  out.append(('normalize-d2', _normalize_deriv(2)))
  out.append(('scale', _scale()))
  for k, (lo, hi) in enumerate([(1e-7, 1e-5), (1e-5, 1.0), (1.0, 1e7)]):
    out.append((f'magnitude-{k}', _small(lo, hi)))
  return out
