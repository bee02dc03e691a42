"""C25: batch elements are processed independently (leading axes and jax.vmap)."""
import itertools
from functools import partial
import jax
import jax.numpy as jnp
import numpy as np
import e3x
from sx import harness as H

INFO = dict(
    functions=['e3x.so3.' + n for n in ('spherical_harmonics', 'solid_harmonics', 'rotation', 'rotation_euler', 'euler_angles_from_rotation', 'alignment_rotation', 'wigner_d', 'irreps_to_tensor', 'tensor_to_irreps')]
    + ['e3x.ops.' + n for n in ('norm', 'normalize', 'gather_src', 'gather_dst', 'indexed_sum', 'indexed_min', 'indexed_max', 'indexed_softmax', 'inverse_softplus')]
    + ['e3x.nn.' + n for n in ('rotate', 'reflect', 'change_max_degree_or_type', 'add', 'basis', 'all activations', 'all radial, cutoff, switch, window, damping and mapping functions', 'Dense', 'Embed', 'Tensor', 'FusedTensor', 'TensorDense', 'MessagePass', 'SelfAttention', 'MultiHeadAttention')]
    + ['e3x.matrix.matmat.combine_irreps'],
    bounds='all real inputs and parameters of ordinary magnitude; leading batch shapes (2,), (2, 1), (1, 2) and (for cheap functions) (2, 2); graphs of 2..3 nodes, a different neighbour list for every batch element; degrees up to 2',
    outside='larger batches; float32 rounding (norm scales by the largest element of the whole call, see the limits in DESIGN.md)',
    explanation='The result of the batched call at every batch index must equal the call on that element alone, and the batched call must equal jax.vmap of the unbatched one, for all values of all elements: element b of the output may depend on element b of the inputs only.',
    assumptions=['real arithmetic'])

nn, so3, ops = e3x.nn, e3x.so3, e3x.ops
F = jnp.float32


def _leaves(y):
  return [l for l in jax.tree_util.tree_leaves(y) if l is not None]


def _batch(f, spec, batch, par=None, const=None, idx=None, vmap=True, shared=(), tol=1e-6):
  """f(**inputs); spec: name -> (suffix shape, H.Real keywords); const: name -> array factory(batch index); par: module spec."""
  const = const or {}
  def build():
    B = list(itertools.product(*map(range, batch)))
    cst = {k: np.stack([np.asarray(g(i)) for i in range(len(B))]).reshape(*batch, *np.asarray(g(0)).shape) for k, g in const.items()}
    inp = {}
    for k, (shp, kw) in spec.items():
      if k in shared:
        inp[k] = H.Real(shp, **kw)
      else:
        inp[k] = H.Real((*batch, *shp), **kw)
    params = None
    if par is not None:
      mod, args, pkw = par
      params = H.Params(mod, *[jax.ShapeDtypeStruct((*batch, *spec[a][0]), F) if a in spec else jnp.asarray(cst[a]) for a in args], lo=-2, hi=2, **{k: jnp.asarray(cst[k]) for k in cst if k not in args}, **pkw)
      inp.update(params.inputs)

    def prog(**v):
      p = {k: v.pop(k) for k in params.names} if params else {}

      def g(**a):
        if params is not None:
          pos = [a.pop(n) for n in par[1]]
          return params.apply(p, *pos, **a, **par[2])
        return f(**a)
      y = g(**v, **{k: jnp.asarray(c) for k, c in cst.items()})
      ly = _leaves(y)
      out = []
      for n, b in enumerate(B):
        yb = _leaves(g(**{k: a if k in shared else a[b] for k, a in v.items()}, **{k: jnp.asarray(c[b]) for k, c in cst.items()}))
        H.static('number of results', len(yb) == len(ly), f'{len(yb)} {len(ly)}')
        for i, (a, c) in enumerate(zip(ly, yb)):
          H.static('shape', a.shape == (*batch, *c.shape) and a.dtype == c.dtype, f'{a.shape} {c.shape} {a.dtype} {c.dtype}')
          out.append(H.eq(f'result {i} element {b}', a[b], c))
      if vmap:
        k = [n for n in v if n not in shared] + list(cst)
        h = lambda *a: g(**dict(zip(k, a)), **{n: v[n] for n in shared})
        for _ in batch:
          h = jax.vmap(h)
        for i, (a, c) in enumerate(zip(ly, _leaves(h(*[v[n] if n in v else jnp.asarray(cst[n]) for n in k])))):
          H.static('vmap shape', a.shape == c.shape, f'{a.shape} {c.shape}')
          out.append(H.eq(f'vmap {i}', a, c))
      return out
    return H.Case('', inp, prog, tol=tol, z3_timeout=30)
  return build


R = lambda *s, lo=-5, hi=5, **k: (s, dict(lo=lo, hi=hi, **k))
V3 = lambda: R(3, lo=0.05, hi=2, srange=(0.05, 2))
B1 = [(2,), (2, 1), (1, 2)]


def cases(tier):
  out = []
  add = lambda nm, batches, *a, **k: out.extend((f'{nm}-{"".join(map(str, b))}', _batch(*a[:2], b, *a[2:], **k)) for b in batches)
  B2 = B1 + [(2, 2)]
  # so3
  add('spherical_harmonics', B1, lambda r: so3.spherical_harmonics(r, 2), dict(r=V3()))
  add('spherical_harmonics-norm', [(2, 1)], lambda r: so3.spherical_harmonics(r, 2, r_is_normalized=True, cartesian_order=False, normalization='4pi'), dict(r=V3()))
  add('solid_harmonics', B2, lambda r: so3.solid_harmonics(r, 3), dict(r=R(3)))
  add('rotation', [(2,), (2, 1)], lambda a, t: so3.rotation(a, t), dict(a=V3(), t=R()))
  add('rotation_euler', B1, lambda a, b, c: so3.rotation_euler(a, b, c), dict(a=R(), b=R(), c=R()))
  add('alignment_rotation', [(2,)], lambda a, b: so3.alignment_rotation(a, b), dict(a=V3(), b=V3()))
  add('wigner_d', B1, lambda r: so3.wigner_d(r, 2), dict(r=R(3, 3, lo=-1, hi=1)))
  for d in (1, 2, 3):
    add(f'irreps_to_tensor-{d}', B1[:2], partial(lambda x, d: so3.irreps_to_tensor(x, d), d=d), dict(x=R(2 * d + 1)))
    add(f'tensor_to_irreps-{d}', B1[:2], partial(lambda x, d: so3.tensor_to_irreps(x, d), d=d), dict(x=R(*[3] * d)))
  # ops
  add('norm', B1, lambda x: ops.norm(x, axis=-1), dict(x=R(2, lo=0.1, hi=3, srange=(0.1, 3))))
  add('normalize', B1, lambda x: ops.normalize(x, axis=-1), dict(x=R(2, lo=0.1, hi=3, srange=(0.1, 3))))
  add('inverse_softplus', B1, lambda x: ops.inverse_softplus(x), dict(x=R(lo=0.1, hi=5, srange=(0.1, 5))))
  adj = [np.array([[1, 2], [0, 2], [2, 0]]), np.array([[2, 1], [3, 3], [1, 3]]), np.array([[0, 0], [1, 3], [3, 2]]), np.array([[3, 3], [2, 2], [1, 0]])]
  dst = [np.array([0, 1, 0, 2]), np.array([2, 2, 3, 1]), np.array([1, 0, 0, 0]), np.array([3, 1, 2, 0])]
  src = [np.array([1, 0, 2, 1]), np.array([0, 1, 3, 2]), np.array([2, 2, 1, 0]), np.array([0, 0, 0, 1])]
  I = lambda L: (lambda i: L[i % len(L)].astype(np.int32))
  for b in B2:
    s = ''.join(map(str, b))
    for nm, f, k in [('gather_src-dense', lambda x, adj_idx: ops.gather_src(x, adj_idx=adj_idx), dict(adj_idx=I([np.minimum(a, 2) for a in adj]))),
                     ('gather_src-sparse', lambda x, src_idx: ops.gather_src(x, src_idx=src_idx), dict(src_idx=I([np.minimum(a, 2) for a in src]))),
                     ('gather_dst-dense', lambda x, adj_idx: ops.gather_dst(x, adj_idx=adj_idx), dict(adj_idx=I([np.minimum(a, 2) for a in adj]))),
                     ('gather_dst-sparse', lambda x, dst_idx: ops.gather_dst(x, dst_idx=dst_idx), dict(dst_idx=I([np.minimum(a, 2) for a in dst])))]:
      out.append((f'{nm}-{s}', _batch(f, dict(x=R(3, 2)), b, const=k)))
    for fn in ('indexed_sum', 'indexed_min', 'indexed_max'):
      g = getattr(ops, fn)
      for kd in (None, True):
        out.append((f'{fn}-sparse-{int(bool(kd))}-{s}', _batch(partial(lambda x, dst_idx, g, kd: (lambda y: y if kd is None else jnp.where((dst_idx < 3)[..., None], y, 0))(g(x, kd, dst_idx=dst_idx, num_segments=3)), g=g, kd=kd), dict(x=R(4, 2)), b, const=dict(dst_idx=I(dst if fn == 'indexed_sum' or kd else [np.array([0, 1, 2, 2]), np.array([2, 0, 1, 1]), np.array([1, 0, 2, 3]), np.array([2, 1, 0, 3])])))))
        out.append((f'{fn}-dense-{int(bool(kd))}-{s}', _batch(partial(lambda x, adj_idx, g, kd: g(x, kd, adj_idx=adj_idx, where=adj_idx < 3), g=g, kd=kd), dict(x=R(3, 2, 2)), b, const=dict(adj_idx=I(adj if fn == 'indexed_sum' else [np.array([[1, 2], [0, 3], [2, 0]]), np.array([[2, 1], [1, 3], [1, 3]])])))))
    out.append((f'indexed_softmax-sparse-{s}', _batch(lambda x, m, dst_idx: jnp.where(dst_idx < 3, ops.indexed_softmax(x, m, dst_idx=dst_idx, num_segments=3), 0), dict(x=R(4, lo=-3, hi=3), m=R(4, lo=0.1, hi=1)), b, const=dict(dst_idx=I(dst)))))
    out.append((f'indexed_softmax-dense-{s}', _batch(lambda x, m, adj_idx: jnp.where(adj_idx < 3, ops.indexed_softmax(x, m, adj_idx=adj_idx, where=adj_idx < 3), 0), dict(x=R(3, 2, lo=-3, hi=3), m=R(3, 2, lo=0.1, hi=1)), b, const=dict(adj_idx=I(adj)))))
  # features
  add('rotate', B2, lambda x, D: nn.rotate(x, D), dict(x=R(2, 4, 2), D=R(4, 4)))
  out.append(('rotate-one', _batch(lambda x, D: nn.rotate(x, D), dict(x=R(1, 4, 2), D=R(4, 4)), (2, 2), shared=('D',))))
  add('reflect', B2, lambda x: nn.reflect(x), dict(x=R(1, 9, 2)))
  add('reflect2', B1, lambda x: nn.reflect(x), dict(x=R(2, 4, 2)))
  add('change', B1, lambda x: nn.change_max_degree_or_type(x, max_degree=2, include_pseudotensors=True), dict(x=R(1, 4, 2)))
  add('add', B2, lambda x, y: nn.add(x, y), dict(x=R(1, 9, 1), y=R(2, 4, 1)))
  for a in ('relu', 'leaky_relu', 'elu', 'selu', 'celu', 'silu', 'gelu', 'mish', 'serf', 'shifted_softplus', 'hard_tanh', 'soft_sign', 'relu6', 'hard_silu', 'bent_identity'):
    add(a, [(2, 1)], partial(lambda x, g: g(x), g=getattr(nn, a)), dict(x=R(2, 4, 2, lo=0.1, hi=0.9, srange=(0.1, 0.9))))
  # radial functions
  rad = dict(lo=0.1, hi=0.9, srange=(0.1, 0.9))
  for g in ('bernstein', 'chebyshev', 'fourier', 'gaussian'):
    for kind in ('basic', 'reciprocal', 'exponential'):
      add(f'{kind}_{g}', [(2,), (2, 1)], partial(lambda x, f: f(x, 3), f=getattr(nn, f'{kind}_{g}')), dict(x=((), rad)))
  for g in ('sinc', 'rectangular_window', 'triangular_window', 'smooth_window'):
    add(g, [(2, 1)], partial(lambda x, f: f(x, 3), f=getattr(nn, g)), dict(x=((), rad)))
  for g in ('smooth_cutoff', 'cosine_cutoff', 'smooth_switch', 'smooth_damping', 'reciprocal_mapping', 'exponential_mapping'):
    add(g, [(2, 1)], partial(lambda x, f: f(x), f=getattr(nn, g)), dict(x=((), rad)))
  add('basis', B1, lambda r: nn.basis(r, max_degree=1, num=2, radial_fn=nn.basic_bernstein, cutoff_fn=partial(nn.smooth_cutoff, cutoff=9.0), damping_fn=nn.smooth_damping, return_cutoff=True, return_norm=True), dict(r=R(3, lo=0.05, hi=0.5, srange=(0.05, 0.5))))
  # modules
  M = lambda nm, batches, mod, spec, const=None, **kw: add(nm, batches, None, spec, par=(mod, [k for k in spec] if 'args' not in kw else kw.pop('args'), kw), const=const, vmap=True)
  M('Dense', B2, nn.Dense(features=2), dict(x=R(2, 4, 2)))
  M('TensorDense', B1, nn.TensorDense(features=1, max_degree=1), dict(x=R(1, 4, 1)))
  for nm, T in (('Tensor', nn.Tensor), ('FusedTensor', nn.FusedTensor)):
    M(nm, B1, T(max_degree=1), dict(x=R(1, 4, 1, lo=-2, hi=2), y=R(2, 4, 1, lo=-2, hi=2)))
  M('Embed', B1, nn.Embed(num_embeddings=3, features=2), {}, dict(i=lambda i: np.array([i % 3, (i + 1) % 3], np.int32)), args=['i'])
  g1 = R(3, 1, 4, 1, lo=-2, hi=2)
  s1 = R(3, 1, 1, 1, lo=-1, hi=1)
  for b in B1:
    s = ''.join(map(str, b))
    sp = dict(dst_idx=I(dst), src_idx=I(src))
    de = dict(adj_idx=I(adj))
    out.append((f'MessagePass-sparse-{s}', _batch(None, dict(x=g1, b=R(4, 1, 4, 1, lo=-2, hi=2)), b, par=(nn.MessagePass(max_degree=1), ['x', 'b'], {}), const=sp)))
    out.append((f'MessagePass-dense-{s}', _batch(None, dict(x=g1, b=R(3, 2, 1, 1, 1, lo=-2, hi=2)), b, par=(nn.MessagePass(max_degree=1), ['x', 'b'], {}), const=de)))
    kw = dict(use_relative_positional_encoding_v=False, num_heads=1)
    out.append((f'SelfAttention-sparse-{s}', _batch(None, dict(x=s1, b=R(4, 1, 1, 1, lo=-1, hi=1), c=R(4, lo=0.1, hi=1)), b, par=(nn.SelfAttention(**kw), ['x', 'b', 'c'], {}), const=sp)))
    out.append((f'SelfAttention-dense-{s}', _batch(None, dict(x=s1, b=R(3, 2, 1, 1, 1, lo=-1, hi=1), c=R(3, 2, lo=0.1, hi=1)), b, par=(nn.SelfAttention(**kw), ['x', 'b', 'c'], {}), const=de)))
    out.append((f'MultiHeadAttention-sparse-{s}', _batch(None, dict(x=s1, y=R(4, 1, 1, 1, lo=-1, hi=1), b=R(4, 1, 4, 1, lo=-1, hi=1)), b, par=(nn.MultiHeadAttention(num_heads=1, max_degree=1), ['x', 'y', 'b'], {}), const=sp)))
    out.append((f'MultiHeadAttention-dense-{s}', _batch(None, dict(x=s1, y=R(2, 1, 1, 1, lo=-1, hi=1), b=R(3, 2, 1, 1, 1, lo=-1, hi=1)), b, par=(nn.MultiHeadAttention(num_heads=1), ['x', 'y', 'b'], {}), const=dict(adj_idx=I([np.minimum(a, 2) for a in adj])))))
  from e3x.matrix import matmat
  add('combine_irreps', B1, lambda x, w, u: matmat.combine_irreps(x, [w, u], 'high'), dict(x=R(4, 2), w=R(2, 3), u=R(2, 1)), shared=('w', 'u'), vmap=True)
  return out
