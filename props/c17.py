"""C17: basis and ExponentialBasis."""
import functools
import jax
import jax.numpy as jnp
import numpy as np
import e3x
from sx import harness as H
from sx import oracle as O

INFO = dict(
    functions=['e3x.nn.basis', 'e3x.nn.ExponentialBasis', 'e3x.ops.norm', 'e3x.so3.spherical_harmonics', 'e3x.nn.smooth_cutoff', 'e3x.nn.cosine_cutoff', 'e3x.ops.inverse_softplus'],
    bounds='all displacements r = n*u (n in [0, 1e3], and arbitrary r in [-1e3, 1e3]^3 in batches containing zero vectors), arbitrary radial, cutoff and damping functions (symbolic polynomials of the norm: every value and slope at a point), degrees 0..3 (quick) / 0..5 (thorough), 1..3 radial functions, batch shapes (), (2,), (2,1), both orderings; all rotations about x, y, z; the e3x cutoffs with radii 0.5..5 and |r| up to 1e3 times the radius; gamma in [-5, 5] and initial gamma in [1e-3, 20]',
    outside='radial functions that are not functions of the norm; float rounding',
    explanation='The basis is compared with the product of radial function, cutoff, damping (degrees above 0) and harmonics of the direction for every displacement; rotations of r act as irreps; everything vanishes with its gradient beyond the cutoff.',
    assumptions=['real arithmetic'])


def pol(c):
  """radial function with symbolic coefficients (num, k)."""
  def f(x, num):
    assert num == c.shape[0]
    return jnp.stack([sum(c[i, k] * x ** k for k in range(c.shape[1])) for i in range(num)], axis=-1)
  return f


def pol1(c):
  return lambda x: sum(c[k] * x ** k for k in range(c.shape[0]))


def _inp(num, batch, lo=0.0):
  return dict(r=H.UnitVec(batch, (lo, 1e3)), a=H.Real((num, 3), -1e3, 1e3), c=H.Real((3,), -1e3, 1e3), d=H.Real((2,), -1e3, 1e3))


def _kw(opts, a, c, d):
  kw = {}
  if 'c' in opts:
    kw['cutoff_fn'] = pol1(c)
  if 'd' in opts:
    kw['damping_fn'] = pol1(d)
  if 'C' in opts:
    kw['return_cutoff'] = True
  if 'N' in opts:
    kw['return_norm'] = True
  return kw


def _call(r, L, num, opts, a, c, d, cart=None):
  kw = _kw(opts, a, c, d)
  if cart is not None:
    kw['cartesian_order'] = cart
  o = e3x.nn.basis(r, max_degree=L, num=num, radial_fn=pol(a), **kw)
  n = 1 + ('C' in opts) + ('N' in opts)
  if n == 1:
    H.static('return', not isinstance(o, tuple), 'unexpected tuple')
    return (o,)
  H.static('return', isinstance(o, tuple) and len(o) == n, f'{type(o)}')
  return o


def _ref(u, n, L, opts, a, c, d, cart):
  """(..., 1, (L+1)^2, num) by definition."""
  y = O.harmonics(u, L, cart, 'racah')
  R = pol(a)(n, a.shape[0])
  if 'c' in opts:
    R = R * pol1(c)(n)[..., None]
  s = jnp.ones((*n.shape, (L + 1) ** 2), n.dtype)
  if 'd' in opts:
    s = jnp.concatenate([s[..., :1], s[..., 1:] * pol1(d)(n)[..., None]], axis=-1)
  return ((y * s)[..., :, None] * R[..., None, :])[..., None, :, :]


def _value(L, num, batch, opts, cart):
  def build():
    def prog(r, a, c, d):
      out = _call(r, L, num, opts, a, c, d, cart)
      n = jnp.sqrt(jnp.sum(r * r, -1))
      u = r / n[..., None]
      y = out[0]
      H.static('shape', y.shape == (*batch, 1, (L + 1) ** 2, num) and y.dtype == r.dtype, f'{y.shape} {y.dtype}')
      cl = [H.eq('basis', y, _ref(u, n, L, opts, a, c, d, True if cart is None else cart))]
      if 'C' in opts:
        cl.append(H.eq('cutoff', out[1], pol1(c)(n)))
      if 'N' in opts:
        cl.append(H.eq('norm', out[-1], n))
      return cl
    return H.Case('', _inp(num, batch, 1e-3), prog, tol=1e-7)
  return build


def _zero(L, num, opts, cart):
  """batch of an arbitrary vector and a zero vector; values and derivatives at zero."""
  def build():
    def prog(r, v, a, c, d):
      z = jnp.zeros((3,), r.dtype)
      x = jnp.stack([r, z])
      f = lambda x: _call(x, L, num, opts, a, c, d, cart)[0]
      y = f(x)
      ref = pol(a)(jnp.zeros((), r.dtype), num) * (c[0] if 'c' in opts else 1.0)
      cl = [H.eq('scalar at zero', y[1, 0, 0], ref)]
      rest = y[1, 0, 1:]
      cl.append(H.eq('tensors at zero', rest, jnp.zeros_like(rest)))
      cl.append(H.eq('other entries', y[0], f(r)))
      # derivative at the zero vector: of the norm is zero by convention (safe norm), so the scalar part is stationary
      _, t = jax.jvp(f, (x,), (jnp.stack([z, v]),))
      cl.append(H.eq('derivative of scalar at zero', t[1, 0, 0], jnp.zeros_like(t[1, 0, 0])))
      cl.append(H.eq('derivative of other entries', t[0], jnp.zeros_like(t[0])))
      cl.append(H.eq('derivative finite', t[1] - t[1], jnp.zeros_like(t[1])))
      return cl
    inp = _inp(num, (), 0.0)
    inp['r'] = H.Real((3,), -1e3, 1e3)
    inp['v'] = H.Real((3,), -1e3, 1e3)
    return H.Case('', inp, prog, tol=1e-7)
  return build


def _rot(L, num, axis, opts, cart, zero=False):
  def build():
    def prog(r, t, a, c, d):
      R = O.dmat(t, 1, axis, False)
      D = O.dmat(t, L, axis, cart)
      f = lambda x: _call(x, L, num, opts, a, c, d, cart)
      o0, o1 = f(r), f(r @ O.axis_rot(t, axis))
      cl = [H.eq('rotated', o1[0], jnp.einsum('...lf,lm->...mf', o0[0], D))]
      o2 = f(-r)
      s = jnp.asarray([(-1.0) ** l for l in range(L + 1) for _ in range(2 * l + 1)], r.dtype)[:, None]
      cl.append(H.eq('reflected', o2[0], s * o0[0]))
      for x, y in zip(o0[1:], o1[1:]):
        cl.append(H.eq('invariants', x, y))
      return cl
    inp = _inp(num, (), 0.0 if zero else 1e-3)
    inp['t'] = H.Angle()
    return H.Case('', inp, prog, tol=1e-7)
  return build


def _deriv(L, num, opts, cart):
  def build():
    def prog(r, v, a, c, d):
      f = lambda x: _call(x, L, num, opts, a, c, d, cart)[0]

      def g(x):
        n = jnp.sqrt(jnp.sum(x * x, -1))
        return _ref(x / n[..., None], n, L, opts, a, c, d, cart)
      _, t = jax.jvp(f, (r,), (v,))
      _, s = jax.jvp(g, (r,), (v,))
      return [H.eq('directional derivative', t, s)]
    inp = _inp(num, (), 1e-2)
    inp['v'] = H.Real((3,), -1e3, 1e3)
    return H.Case('', inp, prog, tol=1e-7)
  return build


def _angular(L, num, cart, opts):
  """any angular function is called with the unit vector, degree and ordering."""
  def build():
    n2 = (L + 1) ** 2

    def prog(r, A, a, c, d):
      seen = []

      def ang(r, max_degree, cartesian_order):
        seen.append((max_degree, cartesian_order))
        return jnp.einsum('...i,ik->...k', jnp.concatenate([r, jnp.ones_like(r[..., :1])], -1), A)
      y = e3x.nn.basis(r, max_degree=L, num=num, radial_fn=pol(a), angular_fn=ang, cartesian_order=cart, **_kw(opts, a, c, d))
      H.static('arguments', all(s == (L, cart) for s in seen) and seen, str(seen))
      n = jnp.sqrt(jnp.sum(r * r, -1))
      u = r / n[..., None]
      Y = ang(u, L, cart)
      s = jnp.ones_like(Y)
      if 'd' in opts:
        s = jnp.concatenate([s[..., :1], s[..., 1:] * pol1(d)(n)[..., None]], axis=-1)
      ref = (Y * s)[..., :, None] * (pol(a)(n, num) * (pol1(c)(n)[..., None] if 'c' in opts else 1.0))[..., None, :]
      return [H.eq('product', y[..., 0, :, :], ref)]
    inp = _inp(num, (2,), 1e-3)
    inp['A'] = H.Real((4, n2), -1e3, 1e3)
    return H.Case('', inp, prog, tol=1e-7)
  return build


def _cutoff(L, fn, rc, damp):
  """real cutoff: exactly zero at and beyond rc, with derivative zero beyond."""
  def build():
    def prog(r, v, a, d):
      cut = functools.partial(getattr(e3x.nn, fn), cutoff=rc)
      kw = dict(damping_fn=pol1(d)) if damp else {}
      f = lambda x: e3x.nn.basis(x, max_degree=L, num=2, radial_fn=pol(a), cutoff_fn=cut, return_cutoff=True, return_norm=True, **kw)
      (y, c, n), (dy, dc, dn) = jax.jvp(f, (r,), (v,))
      z = lambda x: jnp.zeros_like(x)
      return [H.eq('zero', y, z(y)), H.eq('cutoff zero', c, z(c)), H.eq('derivative', dy, z(dy)), H.eq('cutoff derivative', dc, z(dc))]
    return H.Case('', dict(r=H.UnitVec((), (rc * 1.0000001, rc * 1e3)), v=H.Real((3,), -1e3, 1e3), a=H.Real((2, 3), -1e3, 1e3), d=H.Real((2,), -1e3, 1e3)), prog, tol=1e-9)
  return build


def _inside(fn, rc):
  """values inside the cutoff: product with the documented cutoff function; returned cutoff equals it."""
  def build():
    def prog(r, a):
      cut = functools.partial(getattr(e3x.nn, fn), cutoff=rc)
      y, c, n = e3x.nn.basis(r, max_degree=1, num=2, radial_fn=pol(a), cutoff_fn=cut, return_cutoff=True, return_norm=True)
      m = jnp.sqrt(jnp.sum(r * r, -1))
      x = m / rc
      if fn == 'smooth_cutoff':
        ref = jnp.exp(1 - 1 / (1 - x * x))
      else:
        ref = 0.5 * (jnp.cos(jnp.pi * x) + 1)
      return [H.eq('norm', n, m), H.eq('cutoff', c, ref), H.eq('scalar', y[0, 0], ref * pol(a)(m, 2))]
    return H.Case('', dict(r=H.UnitVec((), (1e-3, rc * 0.999)), a=H.Real((2, 3), -1e3, 1e3)), prog, tol=1e-7)
  return build


def _real_radial(fn, kw, num, L):
  """with the e3x radial functions: the basis is the radial function at |r| times the harmonics."""
  def build():
    f = functools.partial(getattr(e3x.nn, fn), **kw)

    def prog(r):
      y, n = e3x.nn.basis(r, max_degree=L, num=num, radial_fn=f, cutoff_fn=lambda x: e3x.nn.smooth_cutoff(x, cutoff=4.0), damping_fn=e3x.nn.smooth_damping, return_norm=True)
      u = r / n[..., None]
      ref = f(n, num)[..., None, :] * (O.harmonics(u, L, True, 'racah') * e3x.nn.smooth_cutoff(n, cutoff=4.0)[..., None])[..., :, None]
      s = jnp.concatenate([jnp.ones_like(n)[..., None]] + [e3x.nn.smooth_damping(n)[..., None]] * ((L + 1) ** 2 - 1), -1)
      return [H.eq('product', y[..., 0, :, :], ref * s[..., :, None]), H.eq('norm', n * n, jnp.sum(r * r, -1))]
    return H.Case('', dict(r=H.UnitVec((2,), (1e-2, 20.0))), prog, tol=1e-7, replay_tol=1e-5)
  return build


def _exp_basis(batch, damp, lo, hi):
  def build():
    mod = e3x.nn.ExponentialBasis()
    num = 2

    def radial(x, num, gamma):
      return jnp.stack([jnp.ones_like(x) * jnp.exp(gamma), jnp.exp(2 * gamma) * x], -1)
    kw = dict(max_degree=1, num=num, cutoff_fn=lambda x: 1 + x)
    if damp:
      kw['damping_fn'] = lambda x: 3 - x

    def prog(r, g):
      y = mod.apply({'params': {'gamma': g}}, r, radial_fn=radial, **kw)
      e = 1 + jnp.exp(g)  # exp of softplus
      ref = e3x.nn.basis(r, radial_fn=lambda x, n: jnp.stack([jnp.ones_like(x) * e, e * e * x], -1), **kw)
      return [H.eq('gamma', y, ref)]
    return H.Case('', dict(r=H.UnitVec(batch, (1e-3, 1e3)), g=H.Real((), lo, hi)), prog, tol=1e-7)
  return build


def _exp_init(lo, hi):
  def build():
    def radial(x, num, gamma):
      return jnp.stack([jnp.ones_like(x) * jnp.exp(gamma)] * num, -1)

    def prog(r, g):
      mod = e3x.nn.ExponentialBasis(initial_gamma=g)
      y, par = mod.init_with_output(jax.random.PRNGKey(0), r, radial_fn=radial, max_degree=0, num=1)
      leaves = jax.tree_util.tree_leaves(par)
      H.static('one parameter', len(leaves) == 1 and leaves[0].shape == (), str(par))
      return [H.eq('initial gamma', y[0, 0, 0] * jnp.exp(-g), jnp.ones_like(g))]
    return H.Case('', dict(r=H.UnitVec((), (1e-3, 1e3)), g=H.Real((), lo, hi)), prog, tol=1e-6, replay_tol=1e-5)
  return build


def cases(tier):
  out = []
  T = tier != 'quick'
  optl = ['', 'c', 'd', 'cd', 'cC', 'cdCN', 'N', 'cN']
  for i, o in enumerate(optl):
    for cart in (True, False):
      L, num, b = 3 - i % 3, 1 + i % 3, [(), (2,), (2, 1)][i % 3]
      out.append((f'value-{o}-{cart}', _value(L, num, b, o, cart)))
  out.append(('value-default', _value(2, 2, (), '', None)))
  for L in range(6 if T else 4):
    out.append((f'value-L{L}', _value(L, 1, (), 'cd', True)))
  for o, cart in [('', True), ('cd', True), ('cd', False), ('d', True)]:
    out.append((f'zero-{o}-{cart}', _zero(2, 2, o, cart)))
  out.append(('zero-L0', _zero(0, 1, 'cd', True)))
  for axis in 'xyz':
    for L, o, cart in [(2, 'cd', True), (3, 'c', False), (1, 'cdCN', True), (0, 'd', True)] + ([(4, 'cd', True)] if T else []):
      out.append((f'rotate-{axis}-{L}-{o}', _rot(L, 1, axis, o, cart)))
  for o, cart in [('', True), ('c', False), ('cd', True)]:
    out.append((f'derivative-{o}', _deriv(1 if not T else 2, 1, o, cart)))
  for L, cart, o in [(0, True, 'cd'), (1, False, 'cd'), (2, True, ''), (1, True, 'd')]:
    out.append((f'angular-{L}-{cart}-{o}', _angular(L, 2, cart, o)))
  for fn in ('smooth_cutoff', 'cosine_cutoff'):
    for rc in (0.5, 1.0, 5.0):
      out.append((f'beyond-{fn}-{rc}', _cutoff(2, fn, rc, rc != 1.0)))
      out.append((f'inside-{fn}-{rc}', _inside(fn, rc)))
  for fn, kw in [('basic_gaussian', dict(limit=4.0)), ('exponential_gaussian', dict(gamma=0.7)), ('reciprocal_fourier', {}), ('exponential_bernstein', dict(cuspless=True)), ('sinc', dict(limit=4.0)), ('smooth_window', dict(limit=4.0)), ('basic_chebyshev', dict(limit=4.0))]:
    out.append((f'radial-{fn}', _real_radial(fn, kw, 3, 1)))
  for i, (lo, hi) in enumerate([(-5.0, -1e-3), (1e-3, 5.0)]):
    out.append((f'exponential-basis-{i}', _exp_basis((), False, lo, hi)))
    out.append((f'exponential-basis-damped-{i}', _exp_basis((2,), True, lo, hi)))
  for i, (lo, hi) in enumerate([(1e-3, 0.69), (0.7, 20.0)]):
    out.append((f'exponential-basis-init-{i}', _exp_init(lo, hi)))
  return out
