"""C04: traceless symmetric tensors <-> irreps."""
import itertools
import jax
import jax.numpy as jnp
import numpy as np
import e3x
from sx import harness as H
from sx import oracle as O

INFO = dict(
    functions=['e3x.so3.irreps_to_tensor', 'e3x.so3.tensor_to_irreps', 'e3x.so3.is_traceless_symmetric', 'the tensor conversion tables (regenerated by the real generator)'],
    bounds='all irreps and all traceless symmetric tensors (symbolic), all vectors, rotations about x and z; degrees 0..4 (quick) / 5 (thorough); 4 normalizations, 2 orderings; is_traceless_symmetric: degrees 0..3, |entries| <= 8, every python path',
    outside='higher degrees; rounding; tensors that are not traceless symmetric (documented as meaningless)',
    explanation='Linear identities against basis tensors obtained by differentiating the reference solid harmonics; the traceless-symmetric test is executed along every python path with symbolic branch conditions.',
    assumptions=['lookup tables are pure functions of the degree (memoised within the process)'])

ein = 'abcdefgh'


def _contract(c, B):
  """c (..., 2l+1), B (2l+1, 3...)."""
  return jnp.tensordot(c, jnp.asarray(B), axes=((-1,), (0,)))


def _rot_tensor(T, R, l):
  """rotate every index of T (row-vector convention)."""
  for k in range(T.ndim - l, T.ndim):
    T = jnp.moveaxis(jnp.tensordot(T, R, axes=((k,), (0,))), -1, k)
  return T


def _conv(l, cart, norm, batch=()):
  def build():
    B = O.ts_basis(l, cart)
    k = O.norm_const(norm, l)

    def prog(c, r):
      kw = dict(cartesian_order=cart, normalization=norm)
      t = e3x.so3.irreps_to_tensor(c, l, **kw)
      H.static('shape', t.shape == (*batch, *((3,) * l if l else (1,))), str(t.shape))
      out = [H.eq('to tensor', t, _contract(c / k, B)),
             H.eq('round trip', e3x.so3.tensor_to_irreps(t, l, **kw), c),
             H.eq('from tensor', e3x.so3.tensor_to_irreps(_contract(c, B), l, **kw), c * k)]
      t2 = e3x.so3.irreps_to_tensor(e3x.so3.tensor_to_irreps(_contract(c, B), l, **kw), l, **kw)
      out.append(H.eq('tensor round trip', t2, _contract(c, B)))
      for p in itertools.permutations(range(l)):
        if l >= 2 and p in ((1, 0, *range(2, l)), (*range(1, l), 0)):
          out.append(H.eq(f'symmetric {p}', t, jnp.transpose(t, (*range(len(batch)), *(len(batch) + q for q in p)))))
      if l >= 2:
        out.append(H.eq('traceless', jnp.trace(t, axis1=-2, axis2=-1), jnp.zeros((*batch, *(3,) * (l - 2)))))
        out.append(H.eq('traceless', jnp.trace(t, axis1=len(batch), axis2=t.ndim - 1), jnp.zeros((*batch, *(3,) * (l - 2)))))
      if not batch:
        y = O.harmonics(r, l, cart, norm, degrees=[l])
        ty = e3x.so3.irreps_to_tensor(y, l, **kw)
        w = jnp.ones(()) if l == 0 else r
        for _ in range(l - 1):
          w = w[..., None] * r
        # contraction with r^l is invariant to detracing up to |r|^2l l!/(2l-1)!!
        if l >= 1:
          dff = float(np.prod(np.arange(2 * l - 1, 0, -2)))
          out.append(H.eq('outer power', jnp.sum(ty * w), jnp.sum(r * r) ** l * float(np.prod(np.arange(1, l + 1))) / dff))
      return out
    return H.Case('', dict(c=H.Real((*batch, 2 * l + 1)), r=H.Real((3,))), prog, tol=1e-8)
  return build


def _rot(l, cart, axis):
  def build():
    def prog(t, c):
      R = O.axis_rot(t, axis)
      f = lambda x: e3x.so3.irreps_to_tensor(x, l, cartesian_order=cart)
      g = lambda x: e3x.so3.tensor_to_irreps(x, l, cartesian_order=cart)
      D = O.dblock(t, l, axis, cart)
      out = [H.eq('to tensor', f(c @ D), _rot_tensor(f(c), R, l) if l else f(c))]
      if l:
        out.append(H.eq('from tensor', g(_rot_tensor(f(c), R, l)), g(f(c)) @ D))
      return out
    return H.Case('', dict(t=H.Angle(), c=H.Real((2 * l + 1,))), prog, tol=1e-8)
  return build


def _dflt(l):
  def build():
    def prog(c):
      kw = dict(cartesian_order=e3x.Config.cartesian_order, normalization=e3x.Config.normalization)
      return [H.eq('irreps_to_tensor', e3x.so3.irreps_to_tensor(c, l), e3x.so3.irreps_to_tensor(c, l, **kw)),
              H.eq('tensor_to_irreps', e3x.so3.tensor_to_irreps(e3x.so3.irreps_to_tensor(c, l), l), c)]
    return H.Case('', dict(c=H.Real((2 * l + 1,))), prog, tol=1e-8)
  return build


def _imp(ps, fn):
  """claims over python paths: cond -> fn(result)."""
  acc = jnp.asarray(True)
  for c, r in ps:
    acc = acc & (jnp.logical_not(c) | fn(jnp.asarray(r)))
  return acc


def _accepts(l, batch=()):
  def build():
    B = O.ts_basis(l, True)

    def prog(c):
      ps = H.paths(lambda: e3x.so3.is_traceless_symmetric(_contract(c, B), l))
      return [H.true('accepted', _imp(ps, lambda r: r))]
    return H.Case('', dict(c=H.Real((*batch, 2 * l + 1), -8, 8)), prog)
  return build


def _rejects(l, batch=()):
  """accepted -> symmetric and traceless up to the documented tolerances."""
  def build():
    shp = (*batch, *((3,) * l))

    def prog(x):
      ps = H.paths(lambda: e3x.so3.is_traceless_symmetric(x, l))
      n = len(batch)
      tol = 3e-4
      out = []
      for p in itertools.permutations(range(l)):
        if p != tuple(range(l)):
          diff = jnp.abs(x - jnp.transpose(x, (*range(n), *(n + q for q in p)))) <= tol
          ok = jnp.all(diff)
          out.append(H.true(f'symmetric {p}', _imp(ps, lambda r: jnp.logical_not(r) | ok)))
      tr = jnp.abs(jnp.trace(x, axis1=-2, axis2=-1)).reshape(-1) <= tol
      out.append(H.true('traceless', jnp.stack([_imp(ps, lambda r, v=v: jnp.logical_not(r) | v) for v in tr])))
      return out
    return H.Case('', dict(x=H.Real(shp, -8, 8)), prog, z3_timeout=30)
  return build


def _exact(atol, rtol):
  """degree 2: the answer is exactly 'all deviations within tolerance'."""
  def build():
    def prog(x):
      ps = H.paths(lambda: e3x.so3.is_traceless_symmetric(x, 2, rtol=rtol, atol=atol))
      sl = 1e-9
      strict = jnp.asarray(True)
      loose = jnp.asarray(True)
      for i, j in ((0, 1), (0, 2), (1, 2), (1, 0), (2, 0), (2, 1)):
        d = jnp.abs(x[i, j] - x[j, i])
        strict &= d <= atol + rtol * jnp.abs(x[j, i]) - sl
        loose &= d <= atol + rtol * jnp.abs(x[j, i]) + sl
      tr = jnp.abs(x[0, 0] + x[1, 1] + x[2, 2])
      strict &= tr <= atol - sl
      loose &= tr <= atol + sl
      return [H.true('accepts', jnp.logical_not(strict) | _imp(ps, lambda r: r)),
              H.true('rejects', loose | _imp(ps, lambda r: jnp.logical_not(r)))]
    return H.Case('', dict(x=H.Real((3, 3), -8, 8)), prog, z3_timeout=60)
  return build


def _low():
  def build():
    def prog(x):
      return [H.true('scalar', jnp.asarray(e3x.so3.is_traceless_symmetric(x[:1], 0))),
              H.true('vector', jnp.asarray(e3x.so3.is_traceless_symmetric(x, 1)))]
    return H.Case('', dict(x=H.Real((3,))), prog, vacuity=False)
  return build


def cases(tier):
  out = []
  Lm = 4 if tier == 'quick' else 5
  for l in range(Lm, -1, -1):
    for cart in (True, False):
      for norm in ('racah', '4pi', 'orthonormal', 'schmidt'):
        out.append((f'conv-l{l}-cart{cart}-{norm}', _conv(l, cart, norm)))
      if l <= 3:
        out.append((f'conv-l{l}-cart{cart}-batch', _conv(l, cart, 'racah', (2,))))
      for ax in 'xz':
        if l <= 3 or tier == 'thorough':
          out.append((f'rot-l{l}-cart{cart}-{ax}', _rot(l, cart, ax)))
    out.append((f'default-l{l}', _dflt(l)))
  out.append(('conv-l2-batch2', _conv(2, True, '4pi', (2, 1))))
  for l in (2, 3):
    out.append((f'accepts-l{l}', _accepts(l)))
    out.append((f'rejects-l{l}', _rejects(l)))
  out.append(('accepts-l2-batch', _accepts(2, (2,))))
  out.append(('rejects-l2-batch', _rejects(2, (2,))))
  out.append(('exact-default', _exact(1e-5, 1e-5)))
  out.append(('exact-atol', _exact(0.1, 0.0)))
  out.append(('exact-rtol', _exact(0.01, 0.25)))
  out.append(('low', _low()))
  return out
