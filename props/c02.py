"""C02: Wigner-D matrices are a representation acting on the harmonics."""
import jax
import jax.numpy as jnp
import numpy as np
import e3x
from sx import harness as H
from sx import oracle as O

INFO = dict(
    functions=['e3x.so3.wigner_d', 'e3x.so3.spherical_harmonics', 'the Wigner-D coefficient table'],
    bounds='all unit quaternions (symbolic, 4 variables modulo norm 1), all rotations about x, y and z, all unit vectors; degree <= 3 (quick) / 4 (thorough); both orderings; batched rotations',
    outside='higher degrees; matrices that are not rotations; rounding',
    explanation='Polynomial identities in the rotation parameters and the vector, decided by normal form and z3.',
    assumptions=['lookup tables are pure functions of the degree (memoised within the process)',
                 'reference rotation matrices are computed from the reference harmonics (oracle.py)'])


def _action(L, cart, x64=True):
  """Y(rR) = Y(r) D(R) for all r and all R."""
  def build():
    def prog(q, r):
      R = O.quat_rot(q)
      D = e3x.so3.wigner_d(R, L, cartesian_order=cart)
      H.static('dtype', D.dtype == q.dtype, f'dtype {D.dtype}')
      return [H.eq('Y(rR)', O.harmonics(r @ R, L, cart), O.harmonics(r, L, cart) @ D)]
    return H.Case('', dict(q=H.Quat(), r=H.Real((3,))), prog, tol=1e-7 if x64 else 2e-4, x64=x64)
  return build


def _axis(L, cart, axis, batch=False):
  def build():
    def prog(t):
      R = O.axis_rot(t, axis)
      Rb = jnp.stack([R, R.T]) if batch else R
      if batch:
        Rb = jnp.stack([Rb, Rb @ R])
      D = e3x.so3.wigner_d(Rb, L, cartesian_order=cart)
      d = O.dmat(t, L, axis, cart)
      if not batch:
        return [H.eq('D', D, d), H.eq('orthogonal', D @ D.T, jnp.eye((L + 1) ** 2)),
                H.eq('inverse', e3x.so3.wigner_d(R.T, L, cartesian_order=cart), D.T)]
      return [H.eq('D', D, jnp.stack([jnp.stack([d, d.T]), jnp.stack([d @ d, jnp.eye((L + 1) ** 2)])]))]
    return H.Case('', dict(t=H.Angle()), prog, tol=1e-7)
  return build


def _ortho(L, cart):
  def build():
    def prog(q):
      D = e3x.so3.wigner_d(O.quat_rot(q), L, cartesian_order=cart)
      return [H.eq('D D^T', D @ D.T, jnp.eye((L + 1) ** 2))]
    return H.Case('', dict(q=H.Quat()), prog, tol=1e-7)
  return build


def _hom(L, cart, a1, a2, a3):
  def build():
    def prog(t, s, w):
      A, B, C = O.axis_rot(t, a1), O.axis_rot(s, a2), O.axis_rot(w, a3)
      f = lambda R: e3x.so3.wigner_d(R, L, cartesian_order=cart)
      return [H.eq('D(AB)', f(A @ B), f(A) @ f(B)), H.eq('D(ABC)', f(A @ B @ C), f(A @ B) @ f(C))]
    return H.Case('', dict(t=H.Angle(), s=H.Angle(), w=H.Angle()), prog, tol=1e-7)
  return build


def _hq(L, cart):
  def build():
    def prog(q, p):
      f = lambda R: e3x.so3.wigner_d(R, L, cartesian_order=cart)
      A, B = O.quat_rot(q), O.quat_rot(p)
      return [H.eq('D(AB)', f(A @ B), f(A) @ f(B))]
    return H.Case('', dict(q=H.Quat(), p=H.Quat()), prog, tol=1e-7)
  return build


def _ident(L, cart):
  def build():
    def prog(z):
      R = jnp.eye(3) + 0 * z
      return [H.eq('D(1)', e3x.so3.wigner_d(R, L, cartesian_order=cart), jnp.eye((L + 1) ** 2))]
    return H.Case('', dict(z=H.Real(())), prog, tol=1e-7, vacuity=False)
  return build


def _euler(L, cart):
  """The private Euler-angle variant is not part of the public API: not claimed."""


def cases(tier):
  out = []
  Ls = (0, 1, 2, 3) if tier == 'quick' else (0, 1, 2, 3, 4)
  for cart in (True, False):
    for L in Ls[::-1]:
      if L <= 3:
        out.append((f'action-L{L}-cart{cart}', _action(L, cart)))
      out.append((f'identity-L{L}-cart{cart}', _ident(L, cart)))
      for ax in 'xyz':
        out.append((f'axis-{ax}-L{L}-cart{cart}', _axis(L, cart, ax)))
      if L in (1, 2, 3):
        out.append((f'axis-batch-L{L}-cart{cart}', _axis(L, cart, 'y', True)))
      if L <= 2:
        out.append((f'ortho-L{L}-cart{cart}', _ortho(L, cart)))
      if L in (1, 2) or (L == 3 and tier == 'thorough'):
        out.append((f'hom-zyz-L{L}-cart{cart}', _hom(L, cart, 'z', 'y', 'z')))
        out.append((f'hom-xzx-L{L}-cart{cart}', _hom(L, cart, 'x', 'z', 'x')))
    out.append((f'hom-quat-L1-cart{cart}', _hq(1, cart)))
  out.append(('action-L2-f32', _action(2, True, False)))
  if tier == 'thorough':
    out.append(('ortho-L3', _ortho(3, True)))
    out.append(('action-L4', _action(4, True)))
  return out
