"""C01: spherical and solid harmonics equal the documented polynomials."""
import jax
import jax.numpy as jnp
import numpy as np
import e3x
from sx import harness as H
from sx import oracle as O

INFO = dict(
    functions=['e3x.so3.spherical_harmonics', 'e3x.so3.solid_harmonics',
               'e3x.ops.normalize', 'e3x.so3._common._integer_powers',
               'the spherical-harmonics coefficient table'],
    bounds='r = n*u for all u on the unit sphere and n in [1e-3, 1e3]; solid harmonics for all r in [-1e3,1e3]^3; '
           'degree <= 6 (quick) / 10 (thorough); four normalizations, both orderings; batch shapes (), (2,), (2,1); float64 and float32 traces',
    outside='higher degrees; rounding errors (real arithmetic, tolerance 1e-8 relative for float64 constants, 1e-5 for float32)',
    explanation='Both sides are polynomials in the symbolic components modulo u.u = 1; z3 decides that no value of the monomials separates them.',
    assumptions=['lookup tables are pure functions of the degree (memoised within the process)'])


def _sh(L, norm, cart, normalized, batch=(), x64=True):
  def build():
    tol = 1e-8 if x64 else 1e-5

    def prog(r):
      y = e3x.so3.spherical_harmonics(r, L, r_is_normalized=normalized,
                                      cartesian_order=cart, normalization=norm)
      H.static('dtype', y.dtype == r.dtype, f'dtype {y.dtype}')
      u = r if normalized else r / jnp.sqrt(jnp.sum(r * r, -1, keepdims=True))
      return [H.eq('Y', y, O.harmonics(u, L, cart, norm))]
    return H.Case('', dict(r=H.UnitVec(batch, None if normalized else (1e-3, 1e3))), prog,
                  tol=tol, x64=x64)
  return build


def _default(L):
  def build():
    def prog(r):
      y = e3x.so3.spherical_harmonics(r, L)
      z = e3x.so3.solid_harmonics(r, L)
      u = r / jnp.sqrt(jnp.sum(r * r, -1, keepdims=True))
      return [H.eq('Y', y, O.harmonics(u, L, e3x.Config.cartesian_order, e3x.Config.normalization)),
              H.eq('S', z, O.harmonics(r, L, e3x.Config.cartesian_order))]
    return H.Case('', dict(r=H.UnitVec((), (1e-3, 1e3))), prog, tol=1e-8)
  return build


def _solid(L, cart, batch=(), x64=True):
  def build():
    def prog(r):
      y = e3x.so3.solid_harmonics(r, L, cartesian_order=cart)
      H.static('dtype', y.dtype == r.dtype, f'dtype {y.dtype}')
      return [H.eq('solid', y, O.harmonics(r, L, cart)),
              H.eq('parity', e3x.so3.solid_harmonics(-r, L, cartesian_order=cart),
                   y * np.concatenate([np.full(2 * l + 1, (-1.0) ** l) for l in range(L + 1)]).astype(r.dtype))]
    return H.Case('', dict(r=H.Real((*batch, 3), -1e3, 1e3)), prog, tol=1e-8 if x64 else 1e-5, x64=x64)
  return build


NORMS = ('racah', 'schmidt', '4pi', 'orthonormal')


def cases(tier):
  out = []
  for norm in NORMS:
    for cart in (True, False):
      for nz in (True, False):
        out.append((f'sh-L6-{norm}-cart{cart}-normalized{nz}', _sh(6, norm, cart, nz)))
      out.append((f'sh-L3-f32-{norm}-cart{cart}', _sh(3, norm, cart, False, (), False)))
  for L in (0, 1, 2, 3, 4, 5):
    out.append((f'sh-L{L}', _sh(L, 'orthonormal', True, False)))
    out.append((f'sh-L{L}-m', _sh(L, '4pi', False, False)))
  for b in ((2,), (2, 1), (1, 2, 2)):
    out.append((f'sh-L2-batch{b}', _sh(2, '4pi', True, False, b)))
    out.append((f'sh-L2-batch{b}-m', _sh(2, 'orthonormal', False, False, b)))
  for L in (0, 1, 3, 6):
    out.append((f'default-L{L}', _default(L)))
  for L in (0, 1, 2, 3, 4, 6):
    for cart in (True, False):
      out.append((f'solid-L{L}-cart{cart}', _solid(L, cart)))
  out.append(('solid-L3-batch', _solid(3, True, (2, 2))))
  out.append(('solid-L4-f32', _solid(4, True, (2,), False)))
  if tier == 'thorough':
    for L in (7, 8, 9, 10):
      for cart in (True, False):
        for norm in NORMS:
          out.append((f'sh-L{L}-{norm}-cart{cart}', _sh(L, norm, cart, False)))
        out.append((f'solid-L{L}-cart{cart}', _solid(L, cart)))
  return out
