"""C10: derivative helper and inverse softplus."""
import math
import jax
import jax.numpy as jnp
import numpy as np
import e3x
from sx import harness as H

INFO = dict(
    functions=['e3x.ops.evaluate_derivatives', 'e3x.ops.inverse_softplus'],
    bounds='element-wise polynomials of degree <= 5 with arbitrary coefficients per element, products with exp/sin/cos of arbitrary frequency, rational functions; all inputs; orders 0..5; inverse softplus: all x in [1e-6, 50] (identity over the reals)',
    outside='functions that are not element-wise; float rounding, overflow and underflow (C19)',
    explanation='Each returned derivative is compared with the symbolic derivative for all coefficients and inputs; softplus(inverse_softplus(x)) = x is reduced to a normal-form identity in exp(x).',
    assumptions=['real arithmetic'])


def _poly_ref(c, x, k):
  n = c.shape[-1]
  r = 0.0 * x
  for p in range(k, n):
    r = r + math.perm(p, k) * c[..., p] * x ** (p - k)
  return r


def _derivs(shape, deg, order, per_element=True):
  def build():
    def prog(x, c):
      f = lambda t: sum(c[..., p] * t ** p for p in range(deg + 1))
      ys = e3x.ops.evaluate_derivatives(f, x, order)
      H.static('count', len(ys) == order + 1, f'{len(ys)} results for max_order={order}')
      return [H.eq(f'order {k}', ys[k], _poly_ref(c, x, k)) for k in range(order + 1)]
    return H.Case('', dict(x=H.Real(shape, -10, 10), c=H.Real((*shape, deg + 1), -10, 10)), prog)
  return build


def _trans(kind, order):
  def build():
    def prog(x, w):
      if kind == 'exp':
        f = lambda t: jnp.exp(w * t)
        ref = lambda k: w ** k * jnp.exp(w * x)
      elif kind == 'sin':
        f = lambda t: jnp.sin(w * t)
        ref = lambda k: w ** k * [jnp.sin(w * x), jnp.cos(w * x), -jnp.sin(w * x), -jnp.cos(w * x)][k % 4]
      elif kind == 'xexp':
        f = lambda t: t * jnp.exp(w * t)
        ref = lambda k: (x * w ** k + (k * w ** (k - 1) if k else 0.0)) * jnp.exp(w * x)
      else:
        f = lambda t: 1 / (t + w)
        ref = lambda k: (-1) ** k * math.factorial(k) / (x + w) ** (k + 1)
      ys = e3x.ops.evaluate_derivatives(f, x, order)
      H.static('count', len(ys) == order + 1, f'{len(ys)}')
      return [H.eq(f'order {k}', ys[k], ref(k)) for k in range(order + 1)]
    return H.Case('', dict(x=H.Real((2,), 0.5, 3, srange=(0.5, 3)), w=H.Real((), 0.5, 3, srange=(0.5, 3))), prog)
  return build


def _wide(order):
  """function with extra output dimensions."""
  def build():
    def prog(x, c):
      f = lambda t: jnp.stack([c[0] * t ** 3, c[1] * t ** 2 + t], axis=-1)
      ys = e3x.ops.evaluate_derivatives(f, x, order)
      out = []
      r = [[c[0] * x ** 3, c[1] * x ** 2 + x], [3 * c[0] * x ** 2, 2 * c[1] * x + 1], [6 * c[0] * x, 2 * c[1] + 0 * x], [6 * c[0] + 0 * x, 0 * x]]
      for k in range(order + 1):
        out.append(H.eq(f'order {k}', ys[k], jnp.stack(r[k], axis=-1)))
      return out
    return H.Case('', dict(x=H.Real((2, 2), -10, 10), c=H.Real((2,), -10, 10)), prog)
  return build


def _isp():
  def build():
    def prog(x):
      y = e3x.ops.inverse_softplus(x)
      return [H.eq('exp(y) + 1 = exp(x)', jnp.exp(y - x) + jnp.exp(-x), jnp.ones_like(x)),
              H.eq('derivative', jax.jvp(e3x.ops.inverse_softplus, (x,), (jnp.ones_like(x),))[1] * (1 - jnp.exp(-x)), jnp.ones_like(x))]
    return H.Case('', dict(x=H.Real((2,), 1e-6, 50, srange=(1e-3, 10))), prog, replay_tol=1e-6)
  return build


def cases(tier):
  out = []
  O = 4 if tier == 'quick' else 6
  for o in range(O + 1):
    out.append((f'poly-{o}', _derivs((2,), 5, o)))
  out.append(('poly-scalar', _derivs((), 4, 3)))
  out.append(('poly-matrix', _derivs((2, 2), 3, 2)))
  for k in ('exp', 'sin', 'xexp', 'inv'):
    out.append((f'fn-{k}', _trans(k, 3)))
  out.append(('wide', _wide(3)))
  out.append(('inverse-softplus', _isp()))
  return out
