"""C03: Clebsch-Gordan coefficients couple irreps equivariantly."""
import jax
import jax.numpy as jnp
import numpy as np
import e3x
from sx import harness as H
from sx import oracle as O

INFO = dict(
    functions=['e3x.so3.clebsch_gordan', 'e3x.so3.clebsch_gordan_for_degrees', 'the Clebsch-Gordan table (regenerated by the real generator)'],
    bounds='all irreps x, y (symbolic), all rotations about x and z (they generate SO(3)); max_degree triples up to 3 (quick) / 4 (thorough) including unequal ones; both orderings',
    outside='higher degrees; rounding',
    explanation='Equivariance and orthonormality as polynomial identities in the irreps components and (cos, sin) of the rotation angle.',
    assumptions=['lookup tables are pure functions of the degree (memoised within the process)'])


def _equi(l1, l2, l3, cart, axis, x64=True):
  def build():
    def prog(t, x, y):
      cg = e3x.so3.clebsch_gordan(l1, l2, l3, cartesian_order=cart)
      H.static('shape', cg.shape == ((l1 + 1) ** 2, (l2 + 1) ** 2, (l3 + 1) ** 2), str(cg.shape))
      f = lambda a, b: jnp.einsum('abc,a,b->c', cg.astype(a.dtype), a, b)
      D = [O.dmat(t, l, axis, cart) for l in (l1, l2, l3)]
      lhs = f(x @ D[0], y @ D[1])
      return [H.eq('equivariant', lhs, f(x, y) @ D[2])]
    return H.Case('', dict(t=H.Angle(), x=H.Real(((l1 + 1) ** 2,)), y=H.Real(((l2 + 1) ** 2,))),
                  prog, tol=1e-7 if x64 else 1e-4, x64=x64)
  return build


def _degrees(l1, l2, l3, cart):
  """Single-triple table: block of the full table; orthogonal basis change."""
  def build():
    def prog(x, y):
      L = max(l1, l2, l3)
      full = e3x.so3.clebsch_gordan(L, L, L, cartesian_order=cart)
      full2 = e3x.so3.clebsch_gordan(l1, l2, l3, cartesian_order=cart)
      cg = e3x.so3.clebsch_gordan_for_degrees(l1, l2, l3, cartesian_order=cart)
      H.static('shape', cg.shape == (2 * l1 + 1, 2 * l2 + 1, 2 * l3 + 1), str(cg.shape))
      s = lambda l: slice(l * l, (l + 1) ** 2)
      blk = full[s(l1), s(l2), s(l3)]
      blk2 = full2[s(l1), s(l2), s(l3)]
      c = lambda m: jnp.einsum('abc,a,b->c', m, x, y)
      out = [H.eq('block', c(cg), c(blk)), H.eq('sliced', c(full2), 0 * c(full2) + jnp.einsum(
          'abc,a,b->c', full[s(l1), s(l2), :(l3 + 1) ** 2], x, y)) if False else H.eq('block2', c(cg), c(blk2))]
      if not abs(l1 - l2) <= l3 <= l1 + l2:
        out.append(H.eq('selection rule', c(cg), jnp.zeros(2 * l3 + 1)))
      return out
    return H.Case('', dict(x=H.Real((2 * l1 + 1,)), y=H.Real((2 * l2 + 1,))), prog, tol=1e-8)
  return build


def _ortho(l1, l2, cart, use_table):
  """x (x) y -> all l3 is norm preserving: sum_l3 |x.cg.y|^2 = |x|^2 |y|^2."""
  def build():
    def prog(x, y, u, v):
      L3 = l1 + l2
      if use_table:
        cg = e3x.so3.clebsch_gordan(l1, l2, L3, cartesian_order=cart)
        cg = cg[l1 * l1:, l2 * l2:, :]
      else:
        cg = jnp.concatenate([e3x.so3.clebsch_gordan_for_degrees(l1, l2, l, cartesian_order=cart)
                              for l in range(abs(l1 - l2), L3 + 1)], axis=-1)
      f = lambda a, b: jnp.einsum('abc,a,b->c', cg, a, b)
      return [H.eq('isometry', jnp.sum(f(x, y) * f(u, v)), jnp.sum(x * u) * jnp.sum(y * v))]
    return H.Case('', dict(x=H.Real((2 * l1 + 1,)), y=H.Real((2 * l2 + 1,)),
                           u=H.Real((2 * l1 + 1,)), v=H.Real((2 * l2 + 1,))), prog, tol=1e-8)
  return build


def _default():
  def build():
    def prog(x, y):
      c = lambda m: jnp.einsum('abc,a,b->c', m, x, y)
      k = e3x.Config.cartesian_order
      return [H.eq('default', c(e3x.so3.clebsch_gordan(2, 2, 2)), c(e3x.so3.clebsch_gordan(2, 2, 2, cartesian_order=k))),
              H.eq('default2', c(jnp.pad(e3x.so3.clebsch_gordan_for_degrees(2, 2, 2), ((4, 0), (4, 0), (0, 0)))),
                   c(jnp.pad(e3x.so3.clebsch_gordan_for_degrees(2, 2, 2, cartesian_order=k), ((4, 0), (4, 0), (0, 0)))))]
    return H.Case('', dict(x=H.Real((9,)), y=H.Real((9,))), prog, tol=1e-8)
  return build


def cases(tier):
  out = []
  T = [(3, 3, 3), (3, 1, 2), (1, 2, 3), (2, 3, 1), (0, 2, 2), (2, 0, 2), (2, 2, 0), (1, 1, 0), (1, 1, 2),
       (1, 1, 1), (2, 2, 2), (0, 0, 0), (3, 2, 0), (0, 3, 3), (2, 1, 3), (1, 3, 1)]
  if tier == 'thorough':
    T += [(4, 4, 4), (4, 1, 3), (1, 4, 4), (4, 2, 2)]
  for t in T:
    for cart in (True, False):
      for ax in 'xz':
        out.append((f'equi-{t}-cart{cart}-{ax}', _equi(*t, cart, ax)))
  out.append(('equi-f32', _equi(2, 2, 2, True, 'x', False)))
  Lm = 3 if tier == 'quick' else 4
  for l1 in range(Lm + 1):
    for l2 in range(Lm + 1):
      for cart in (True, False):
        if l1 + l2 <= (4 if tier == 'thorough' else 3):
          out.append((f'ortho-{l1}{l2}-cart{cart}', _ortho(l1, l2, cart, False)))
          out.append((f'ortho-table-{l1}{l2}-cart{cart}', _ortho(l1, l2, cart, True)))
        for l3 in range(Lm + 1):
          if (l1 + 2 * l2 + 3 * l3 + cart) % 2 == 0 or tier == 'thorough' or abs(l1 - l2) <= l3 <= l1 + l2:
            out.append((f'degrees-{l1}{l2}{l3}-cart{cart}', _degrees(l1, l2, l3, cart)))
  out.append(('default', _default()))
  return out
