"""C13: Dense and Embed."""
import jax
import jax.numpy as jnp
import numpy as np
import e3x
from sx import harness as H
from sx import oracle as O

INFO = dict(
    functions=['e3x.nn.Dense', 'e3x.nn.Embed'],
    bounds='all weights, biases and inputs; all rotations about x, y and z; max_degree 0..5 (quick) / 0..6 (thorough), both feature types, with and without bias, 0..2 batch dimensions, 2 -> 1..3 channels; Embed: all index values in range (tables of 1..4 rows), all tables',
    outside='larger sizes; indices out of range; reduced-precision dtypes',
    explanation='The module is applied with symbolic parameters. The matrix of each degree/parity is read off by applying the real layer to unit features; the layer must then equal this matrix on every component of the degree, add a constant only to the even scalar, and commute with rotations and reflections for all parameters.',
    assumptions=['parameter shapes are obtained from module.init'])


def refl(L, P, dtype):
  return jnp.asarray([[(-1.0) ** (l if P == 1 else p) for l in range(L + 1) for _ in range(2 * l + 1)] for p in range(P)], dtype)[..., None]


def _dense(L, P, bias, batch, fo, axis, Fi=2):
  def build():
    n = (L + 1) ** 2
    mod = e3x.nn.Dense(features=fo, use_bias=bias)
    par = H.Params(mod, jax.ShapeDtypeStruct((*batch, P, n, Fi), jnp.float32))

    def prog(x, t, **kw):
      f = lambda v: par.apply(kw, v)
      y = f(x)
      H.static('shape', y.shape == (*batch, P, n, fo) and y.dtype == x.dtype, f'{y.shape} {y.dtype}')
      H.static('parameters', par.size == P * (L + 1) * Fi * fo + (fo if bias else 0), f'{par.size} parameters {par.paths}')
      zero = f(jnp.zeros((P, n, Fi), x.dtype))
      out = []
      z2 = zero.at[0, 0].set(0.0) if bias else zero
      out.append(H.eq('bias', z2, jnp.zeros_like(z2)))
      units = []
      for j in range(Fi):
        u = np.zeros((P, n, Fi))
        for l in range(L + 1):
          u[:, l * l, j] = 1.0
        units.append(f(jnp.asarray(u, x.dtype)) - zero)
      W = jnp.stack(units, axis=-2)  # (P, n, Fi, fo), first component of each degree
      idx = np.array([l * l for l in range(L + 1) for _ in range(2 * l + 1)])
      W = W[:, idx]
      out.append(H.eq('linear per degree', y, jnp.einsum('...pnj,pnjo->...pno', x, W) + zero))
      D = O.dmat(t, L, axis, True)
      rot = lambda v: jnp.einsum('...lf,lm->...mf', v, D)
      out.append(H.eq('rotation', f(rot(x)), rot(y)))
      s = refl(L, P, x.dtype)
      out.append(H.eq('reflection', f(s * x), s * y))
      return out
    return H.Case('', dict(x=H.Real((*batch, P, n, Fi)), t=H.Angle(), **par.inputs), prog)
  return build


def _distinct(L, P, fo=1, Fi=1):
  """the matrices of the degrees/parities can be chosen independently: the Jacobian of the matrices w.r.t. the parameters is a permutation matrix."""
  def build():
    n = (L + 1) ** 2
    mod = e3x.nn.Dense(features=fo, use_bias=False)
    par = H.Params(mod, jax.ShapeDtypeStruct((P, n, Fi), jnp.float32))

    def prog(**kw):
      u = np.zeros((P, n, Fi))
      for l in range(L + 1):
        u[:, l * l] = 1.0
      one = jnp.ones(())
      names = list(kw)

      def W(vals):
        y = par.apply(dict(zip(names, vals)), jnp.asarray(u, vals[0].dtype))
        return jnp.stack([y[p, l * l, 0] for p in range(P) for l in range(L + 1)])
      J = jax.jacfwd(W)([kw[k] for k in names])
      J = jnp.concatenate([j.reshape(j.shape[0], -1) for j in J], axis=1)
      return [H.eq('one parameter per matrix entry', J @ J.T, jnp.eye(P * (L + 1), dtype=J.dtype))]
    return H.Case('', par.inputs, prog)
  return build


def _embed(N, F, shape):
  def build():
    mod = e3x.nn.Embed(num_embeddings=N, features=F)
    par = H.Params(mod, jax.ShapeDtypeStruct(shape, jnp.int32))

    def prog(i, **kw):
      y = par.apply(kw, i)
      H.static('parameters', par.size == N * F, str(par.size))
      H.static('shape', y.shape == (*shape, 1, 1, F), str(y.shape))
      tab = kw[par.names[0]].reshape(N, F)
      ref = 0
      for k in range(N):
        ref = ref + jnp.where((i == k)[..., None], tab[k], 0.0)
      return [H.eq('row', y[..., 0, 0, :], ref)]
    return H.Case('', dict(i=H.Int(shape, range(N)), **par.inputs), prog)
  return build


def cases(tier):
  out = []
  Lmax = 5 if tier == 'quick' else 6
  for L in range(Lmax + 1):
    for P in (1, 2):
      for bias in (False, True):
        axis = 'xyz'[(L + P + bias) % 3]
        out.append((f'dense-{L}-{P}-{int(bias)}', _dense(L, P, bias, [(), (2,), (2, 1)][(L + P) % 3], 1 + (L + P) % 3, axis)))
        if tier != 'quick':
          for axis in 'xyz':
            out.append((f'dense-{L}-{P}-{int(bias)}-{axis}', _dense(L, P, bias, (2,), 2, axis, 3)))
      out.append((f'independent-{L}-{P}', _distinct(L, P)))
  for N, F, shape in [(1, 2, (2,)), (2, 1, ()), (3, 2, (3,)), (4, 3, (2, 2))]:
    out.append((f'embed-{N}-{F}-{len(shape)}', _embed(N, F, shape)))
  return out
