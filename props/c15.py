"""C15: MessagePass."""
import itertools
import jax
import jax.numpy as jnp
import numpy as np
import e3x
from sx import harness as H
from sx import oracle as O
from props.c13 import refl
from props.c14 import equivariance, expected_out

INFO = dict(
    functions=['e3x.nn.MessagePass', 'e3x.nn.modules._Conv', 'e3x.nn.Dense', 'e3x.nn.Tensor', 'e3x.nn.FusedTensor', 'e3x.ops.gather_src', 'e3x.ops.indexed_sum'],
    bounds='all weights, features, basis values and message weights; every source/destination index (symbolic, including the padding value) on graphs of 2..3 nodes and up to 4 entries (sparse) or 3x2 slots (dense), symbolic masks, batch of 2 graphs; features of degree 0..1 with and without pseudotensors, basis degree 0..2; all rotations',
    outside='larger graphs and degrees; negative indices; float rounding and summation order',
    explanation='The message of one edge is the layer applied to a one-edge graph; it is compared with Tensor(Dense(basis), weight * features of the source) and is equivariant. The layer on any graph must equal, at every node, the sum of the messages of the entries pointing to it, for all symbolic index lists, masks and values.',
    assumptions=['real arithmetic'])


def make(opt):
  kw = dict(opt)
  if not kw.get('use_fused_tensor', False):
    kw.setdefault('tensor_kernel_init', jax.nn.initializers.zeros)
  return e3x.nn.MessagePass(**kw)


def edge(par, kw, xs, b, w=None):
  """message of a single edge: source features (P, n, F), basis (P', n', F')."""
  y = par.apply(kw, xs[None], b[None], None if w is None else w[None], dst_idx=jnp.zeros((1,), jnp.int32), src_idx=jnp.zeros((1,), jnp.int32), num_segments=1)
  return y[0]


def params(opt, xsh, bsh):
  return H.Params(make(opt), jax.ShapeDtypeStruct((1, *xsh), jnp.float32), jax.ShapeDtypeStruct((1, *bsh), jnp.float32),
                  dst_idx=jnp.zeros((1,), jnp.int32), src_idx=jnp.zeros((1,), jnp.int32))


def out_shape(opt, xsh, bsh):
  Lx, Lb = [int(round(np.sqrt(s[1]))) - 1 for s in (xsh, bsh)]
  L3 = max(Lx, Lb) if opt.get('max_degree') is None else opt['max_degree']
  P3 = expected_out(Lb, Lx, L3, bsh[0], xsh[0], opt.get('include_pseudotensors', True))
  return Lx, Lb, L3, P3


def _edge(opt, xsh, bsh, axes='xz', wsh=None):
  """single message: coupling of filter and features; equivariance."""
  def build():
    par = params(opt, xsh, bsh)
    Lx, Lb, L3, P3 = out_shape(opt, xsh, bsh)
    F = xsh[2]
    cart = opt.get('cartesian_order', True)

    def prog(x, b, w=None, **kw):
      y, out = equivariance(lambda a, c: edge(par, kw, a, c, w), [x, b], [Lx, Lb], L3, P3, axes, cart)
      H.static('shape', y.shape == (P3, (L3 + 1) ** 2, F), str(y.shape))
      tree = par.tree_of(kw)['params']
      sub = [k for k in tree if 'tensor' in k]
      if 'filter' in tree and len(sub) == 1:
        filt = e3x.nn.Dense(features=F, use_bias=opt.get('use_basis_bias', False)).apply({'params': tree['filter']}, b)
        cls = e3x.nn.FusedTensor if opt.get('use_fused_tensor', False) else e3x.nn.Tensor
        T = cls(max_degree=L3, include_pseudotensors=opt.get('include_pseudotensors', True), cartesian_order=cart)
        out.append(H.eq('message', y, T.apply({'params': tree[sub[0]]}, filt, x if w is None else x * w)))
      return out
    inp = dict(x=H.Real(xsh), b=H.Real(bsh), **par.inputs)
    if wsh is not None:
      inp['w'] = H.Real(wsh)
    return H.Case('', inp, prog)
  return build


def pick(x, i, N):
  """row i (symbolic) of x; rows outside are irrelevant."""
  acc = jnp.zeros(x.shape[1:], x.dtype)
  for k in range(N):
    acc = acc + jnp.where(i == k, x[k], jnp.zeros_like(x[k]))
  return acc


def _sparse(opt, N, E, xsh, bsh, wsh=None, batch=(), segs=None, sort=False, const=None):
  def build():
    par = params(opt, xsh, bsh)
    Lx, Lb, L3, P3 = out_shape(opt, xsh, bsh)
    S = N if segs is None else segs

    def prog(x, b, src, dst, w=None, **kw):
      y = par.apply(kw, x, b, w, dst_idx=dst, src_idx=src, num_segments=segs, indices_are_sorted=sort)
      H.static('shape', y.shape == (*batch, S, P3, (L3 + 1) ** 2, xsh[2]) and y.dtype == x.dtype, f'{y.shape} {y.dtype}')
      out = []
      for g in itertools.product(*map(range, batch)):
        msgs = [edge(par, kw, pick(x[g], src[g][e], N), b[g][e], None if w is None else w[g][e]) for e in range(E)]
        for i in range(S):
          ref = sum(jnp.where(dst[g][e] == i, m, jnp.zeros_like(m)) for e, m in enumerate(msgs))
          out.append(H.eq(f'node {g}[{i}]', y[g][i], ref))
      return out
    dst = H.Int((*batch, E), range(S + 1)) if const is None else H.Const(np.asarray(const, np.int32))
    inp = dict(x=H.Real((*batch, N, *xsh)), b=H.Real((*batch, E, *bsh)), src=H.Int((*batch, E), range(N)), dst=dst, **par.inputs)
    if wsh is not None:
      inp['w'] = H.Real((*batch, E, *wsh))
    return H.Case('', inp, prog)
  return build


def _dense(opt, N, M, xsh, bsh, where, wsh=None, batch=()):
  def build():
    par = params(opt, xsh, bsh)
    Lx, Lb, L3, P3 = out_shape(opt, xsh, bsh)

    def prog(x, b, adj, mask=None, w=None, **kw):
      y = par.apply(kw, x, b, w, adj_idx=adj, where=mask)
      H.static('shape', y.shape == (*batch, N, P3, (L3 + 1) ** 2, xsh[2]) and y.dtype == x.dtype, f'{y.shape} {y.dtype}')
      out = []
      on = adj < N if mask is None else mask
      for g in itertools.product(*map(range, batch)):
        for i in range(N):
          ref = 0
          for k in range(M):
            m = edge(par, kw, pick(x[g], adj[g][i, k], N), b[g][i, k], None if w is None else w[g][i, k])
            ref = ref + jnp.where(on[g][i, k], m, jnp.zeros_like(m))
          out.append(H.eq(f'node {g}[{i}]', y[g][i], ref))
      return out
    inp = dict(x=H.Real((*batch, N, *xsh)), b=H.Real((*batch, N, M, *bsh)), adj=H.Int((*batch, N, M), range(N + (0 if where else 1))), **par.inputs)
    if where:
      inp['mask'] = H.Bool((*batch, N, M))
    if wsh is not None:
      inp['w'] = H.Real((*batch, N, M, *wsh))
    return H.Case('', inp, prog)
  return build


def _relabel(opt, N, E, xsh, bsh):
  """swapping two node labels permutes the result; permuting the entries changes nothing."""
  def build():
    par = params(opt, xsh, bsh)

    def prog(x, b, src, dst, **kw):
      f = lambda x, b, s, d: par.apply(kw, x, b, dst_idx=d, src_idx=s)
      y = f(x, b, src, dst)
      perm = np.array([1, 0, *range(2, N)])
      inv = lambda i: jnp.where(i == 0, 1, jnp.where(i == 1, 0, i))
      out = [H.eq('relabelled', f(x[perm], b, inv(src), inv(dst)), y[perm])]
      p = np.roll(np.arange(E), 1)
      out.append(H.eq('reordered', f(x, b[p], src[p], dst[p]), y))
      return out
    return H.Case('', dict(x=H.Real((N, *xsh)), b=H.Real((E, *bsh)), src=H.Int((E,), range(N)), dst=H.Int((E,), range(N)), **par.inputs), prog)
  return build


def cases(tier):
  out = []
  T = tier != 'quick'
  opts = [dict(), dict(use_fused_tensor=True), dict(include_pseudotensors=False), dict(max_degree=0), dict(max_degree=1, use_basis_bias=True),
          dict(max_degree=2, cartesian_order=False, use_fused_tensor=True, use_basis_bias=True)]
  for k, o in enumerate(opts):
    for xsh, bsh in [((1, 1, 2), (1, 4, 1)), ((1, 4, 1), (1, 4, 2)), ((2, 4, 1), (1, 4, 1)), ((2, 4, 1), (2, 4, 1)), ((1, 4, 1), (1, 9, 1))] + ([((2, 9, 1), (1, 9, 1))] if T else []):
      if o.get('max_degree') == 2 and bsh[1] + xsh[1] < 8:
        continue
      w = [None, (1, 1, xsh[2]), (1, 1, 1)][k % 3]
      out.append((f'edge-{k}-{xsh[0]}{xsh[1]}-{bsh[0]}{bsh[1]}', _edge(o, xsh, bsh, 'xz', w)))
  for k, o in enumerate(opts[:5]):
    sh = [((1, 4, 1), (1, 4, 1)), ((1, 4, 1), (1, 4, 1)), ((2, 4, 1), (1, 4, 1)), ((1, 4, 2), (1, 4, 1)), ((1, 1, 2), (1, 4, 1))][k]
    w = [None, (1, 1, 1), None, (1, 1, 2), (1, 1, 2)][k]
    out.append((f'sparse-{k}-N3E3', _sparse(o, 3, 3, *sh, w)))
    out.append((f'dense-{k}-pad', _dense(o, 3, 2, *sh, False, w)))
    out.append((f'dense-{k}-where', _dense(o, 2, 2, *sh, True, w)))
    out.append((f'relabel-{k}', _relabel(o, 3, 3, *sh)))
    out.append((f'sparse-{k}-batch', _sparse(o, 3, 2, *sh, w, batch=(2,))))
    out.append((f'dense-{k}-batch', _dense(o, 2, 1, *sh, False, w, batch=(2,))))
    out.append((f'sparse-{k}-segments', _sparse(o, 2, 3, *sh, w, segs=3)))
    out.append((f'sparse-{k}-sorted', _sparse(o, 3, 4, *sh, w, sort=True, const=[0, 0, 2, 3])))
  out.append(('sparse-N2E4', _sparse(dict(max_degree=0), 2, 4, (1, 1, 1), (1, 1, 1))))
  if T:
    out.append(('sparse-N3E4', _sparse(dict(max_degree=1), 3, 4, (1, 4, 1), (1, 4, 1))))
    out.append(('sparse-N3E5', _sparse(dict(max_degree=0), 3, 5, (1, 1, 1), (1, 4, 1))))
    out.append(('dense-N4M3', _dense(dict(max_degree=0), 4, 3, (1, 1, 1), (1, 4, 1), False)))
  return out
