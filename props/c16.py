"""C16: MultiHeadAttention and SelfAttention."""
import itertools
import jax
import jax.numpy as jnp
import numpy as np
import e3x
from sx import harness as H
from sx import oracle as O
from props.c13 import refl
from props.c14 import equivariance, expected_out

INFO = dict(
    functions=['e3x.nn.MultiHeadAttention', 'e3x.nn.SelfAttention', 'e3x.nn.modules._Conv', 'e3x.ops.indexed_softmax', 'e3x.ops.gather_src', 'e3x.ops.gather_dst'],
    bounds='all weights, features, basis and cutoff values on graphs of 2..3 nodes with up to 4 entries, sparse and dense (fixed representative graphs for the full layer; every index list of 3 entries on 2 nodes, including padding, for scalar features); 1..2 heads, degrees 0..1 (2 for the basis), with and without pseudotensors and relative positional encodings; all rotations',
    outside='larger graphs, degrees and numbers of heads; float rounding (see C19 for overflow)',
    explanation='The layer is compared with its definition (queries, keys, positional encodings, cutoff-weighted softmax per destination and head, coupling with the basis) for all values, is equivariant, and excluded entries (masked, padded, zero cutoff) do not influence result or derivative.',
    assumptions=['real arithmetic', 'softmax logits are within +-50 through the bounds of weights and features'])

B = 2.0  # bound of all inputs


def make(opt):
  kw = dict(opt)
  self_ = kw.pop('self_', False)
  kw.setdefault('tensor_kernel_init', None if kw.get('use_fused_tensor') else jax.nn.initializers.zeros)
  return (e3x.nn.SelfAttention if self_ else e3x.nn.MultiHeadAttention)(**kw)


class Att:

  def __init__(self, opt, qsh, ksh, bsh, N, M, cut, idx):
    """idx: dict of index arrays (concrete shapes)."""
    self.opt, self.qsh, self.ksh, self.bsh, self.N, self.M, self.cut = opt, qsh, ksh, bsh, N, M, cut
    self.mod = make(opt)
    self.lead = next(iter(idx.values())).shape
    sd = lambda *s: jax.ShapeDtypeStruct(s, jnp.float32)
    a = [sd(N, *qsh)] + ([] if opt.get('self_') else [sd(M, *ksh)])
    self.need_basis = opt.get('use_relative_positional_encoding_qk', True) or opt.get('use_relative_positional_encoding_v', True)
    if self.need_basis:
      a.append(sd(*self.lead, *bsh))
    self.par = H.Params(self.mod, *a, lo=-B, hi=B, **idx)
    self.H = opt.get('num_heads', 1)

  def inputs(self):
    d = dict(xq=H.Real((self.N, *self.qsh), -B, B))
    if not self.opt.get('self_'):
      d['xk'] = H.Real((self.M, *self.ksh), -B, B)
    if self.need_basis:
      d['b'] = H.Real((*self.lead, *self.bsh), -B, B)
    if self.cut:
      d['cut'] = H.Real(self.lead, 0.1, 1.0)
    d.update(self.par.inputs)
    return d

  def split(self, v):
    par = {k: v[k] for k in self.par.names}
    return par, v.get('xq'), v.get('xk', v.get('xq')), v.get('b'), v.get('cut')

  def call(self, par, xq, xk, b, cut, **idx):
    a = [xq] if self.opt.get('self_') else [xq, xk]
    return self.par.apply(par, *a, b, cut, **idx)

  def degrees(self):
    L = lambda s: int(round(np.sqrt(s[1]))) - 1
    Lq, Lk, Lb = L(self.qsh), L(self.ksh), L(self.bsh)
    if self.opt.get('use_relative_positional_encoding_v', True):
      L3 = max(Lk, Lb) if self.opt.get('max_degree') is None else self.opt['max_degree']
      P3 = expected_out(Lb, Lk, L3, self.bsh[0], self.ksh[0], self.opt.get('include_pseudotensors', True))
    else:
      L3, P3 = Lk, self.ksh[0]
    return Lq, Lk, Lb, L3, P3

  # -- definition
  def entry(self, tree, q, k, b):
    """logits (H,) of one entry: q (P, n, Fq), k, b."""
    o = self.opt
    Lq, Lk, _, _, _ = self.degrees()
    L = min(Lq, Lk)
    P = 2 if self.qsh[0] == self.ksh[0] == 2 else 1
    q, k = [e3x.nn.change_max_degree_or_type(v, max_degree=L, include_pseudotensors=P == 2) for v in (q, k)]
    F = self.qsh[2] if o.get('qkv_features') is None else o['qkv_features']
    dense = lambda nm, v: e3x.nn.Dense(features=F, use_bias=o.get(nm + '_use_bias', False)).apply({'params': tree[nm]}, v)
    t = dense('query', q) * dense('key', k)  # (P, n, F)
    if o.get('use_relative_positional_encoding_qk', True):
      w = tree['relative_positional_encoding']
      r = jnp.einsum('b,bo->o', b[0, 0], w['kernel'])
      if 'bias' in w:
        r = r + w['bias']
      r = r.reshape(P, L + 1, F)
      t = t * jnp.concatenate([jnp.repeat(r[:, l:l + 1], 2 * l + 1, axis=1) for l in range(L + 1)], axis=1)
    t = t.reshape(P, (L + 1) ** 2, F // self.H, self.H)
    return t.sum(axis=(0, 1, 2)) / np.sqrt(P * (L + 1) ** 2 * (F // self.H))

  def message(self, tree, wt, v, b):
    """contribution of one entry: weights (H,), source features."""
    o = self.opt
    F = self.qsh[2] if o.get('qkv_features') is None else o['qkv_features']
    v = e3x.nn.Dense(features=F, use_bias=o.get('value_use_bias', False)).apply({'params': tree['value']}, v)
    v = v * jnp.stack([wt[f // (F // self.H)] for f in range(F)])
    if not o.get('use_relative_positional_encoding_v', True):
      return v
    filt = e3x.nn.Dense(features=F, use_bias=o.get('use_basis_bias', False)).apply({'params': tree['filter']}, b)
    nm, = [k for k in tree if 'tensor' in k]
    cls = e3x.nn.FusedTensor if o.get('use_fused_tensor', False) else e3x.nn.Tensor
    T = cls(max_degree=o.get('max_degree'), include_pseudotensors=o.get('include_pseudotensors', True), cartesian_order=o.get('cartesian_order', True))
    return T.apply({'params': tree[nm]}, filt, v)

  def node(self, tree, q, entries):
    """entries: list of (k features, basis, cutoff)."""
    _, _, _, L3, P3 = self.degrees()
    F = self.qsh[2] if self.opt.get('out_features') is None else self.opt['out_features']
    Fh = self.qsh[2] if self.opt.get('qkv_features') is None else self.opt['qkv_features']
    acc = jnp.zeros((P3, (L3 + 1) ** 2, Fh), q.dtype)
    if entries:
      d = [self.entry(tree, q, k, b) for k, b, _ in entries]
      num = [c * jnp.exp(x) for x, (_, _, c) in zip(d, entries)]
      den = sum(num)
      for n, (k, b, _) in zip(num, entries):
        acc = acc + self.message(tree, n / den, k, b)
    return e3x.nn.Dense(features=F, use_bias=self.opt.get('output_use_bias', True)).apply({'params': tree['out']}, acc)


def _value(opt, qsh, ksh, bsh, N, M, edges, dense, cut, kw=None):
  """edges: list of (dst, src) (sparse) or rows of sources (dense, M = padding)."""
  def build():
    if dense:
      adj = np.asarray(edges, np.int32)
      idx = dict(adj_idx=jnp.asarray(adj))
      ent = [[((i, k), int(adj[i, k])) for k in range(adj.shape[1]) if adj[i, k] < M] for i in range(N)]
    else:
      dst, src = [np.asarray(e, np.int32) for e in zip(*edges)]
      idx = dict(dst_idx=jnp.asarray(dst), src_idx=jnp.asarray(src))
      ent = [[((e,), int(src[e])) for e in range(len(dst)) if dst[e] == i] for i in range(N)]
    at = Att(opt, qsh, ksh, bsh, N, M, cut, idx)
    Lq, Lk, Lb, L3, P3 = at.degrees()

    def prog(**v):
      par, xq, xk, b, c = at.split(v)
      y = at.call(par, xq, xk, b, c, **idx, **(kw or {}))
      F = qsh[2] if opt.get('out_features') is None else opt['out_features']
      H.static('shape', y.shape == (N, P3, (L3 + 1) ** 2, F) and y.dtype == xq.dtype, f'{y.shape} {y.dtype}')
      tree = at.par.tree_of(par)['params']
      out = []
      for i in range(N):
        ref = at.node(tree, xq[i], [(xk[s], None if b is None else b[e], 1.0 if c is None else c[e]) for e, s in ent[i]])
        out.append(H.eq(f'node {i}', y[i], ref))
      return out
    return H.Case('', at.inputs(), prog, tol=1e-6, z3_timeout=30)
  return build


def _equiv(opt, qsh, ksh, bsh, N, M, edges, cut, axes='xz'):
  def build():
    dst, src = [np.asarray(e, np.int32) for e in zip(*edges)]
    idx = dict(dst_idx=jnp.asarray(dst), src_idx=jnp.asarray(src))
    at = Att(opt, qsh, ksh, bsh, N, M, cut, idx)
    Lq, Lk, Lb, L3, P3 = at.degrees()

    def prog(**v):
      par, xq, xk, b, c = at.split(v)
      own = opt.get('self_')
      xs = [xq] + ([] if own else [xk]) + ([] if b is None else [b])
      Ls = [Lq] + ([] if own else [Lk]) + ([] if b is None else [Lb])

      def f(*a):
        a = list(a)
        q = a.pop(0)
        k = q if own else a.pop(0)
        return at.call(par, q, k, a.pop(0) if a else None, c, **idx)
      y, out = equivariance(f, xs, Ls, L3, P3, axes, opt.get('cartesian_order', True))
      return out
    return H.Case('', at.inputs(), prog, tol=1e-6, z3_timeout=30)
  return build


def _local(opt, qsh, bsh, kind):
  """excluded entries have no influence on values and derivatives. 3 nodes."""
  def build():
    N = 3
    opt_ = dict(opt)
    if kind in ('zero-sparse', 'pad-sparse'):
      # the last entry is excluded
      dst = jnp.asarray([0, 1, 0, N if kind == 'pad-sparse' else 1], jnp.int32)
      src = jnp.asarray([1, 0, 2, N if kind == 'pad-sparse' else 2], jnp.int32)
      idx = dict(dst_idx=dst, src_idx=src)
      ex = (3,)
      less = dict(dst_idx=dst[:3], src_idx=src[:3])
      cutw = jnp.asarray([1.0, 1, 1, 0]) if kind == 'zero-sparse' else None
    else:
      adj = jnp.asarray([[1, 2], [0, N if kind == 'pad-dense' else 2], [N, N]], jnp.int32)
      idx = dict(adj_idx=adj)
      ex = (1, 1)
      less = dict(dst_idx=jnp.asarray([0, 0, 1], jnp.int32), src_idx=jnp.asarray([1, 2, 0], jnp.int32))
      cutw = jnp.asarray([[1.0, 1], [1, 0], [1, 1]]) if kind == 'zero-dense' else None
      if kind == 'mask-dense':
        idx['where'] = jnp.asarray([[True, True], [True, False], [False, False]])
    at = Att(opt_, qsh, qsh, bsh, N, N, True, {k: v for k, v in idx.items() if k != 'where'})

    def prog(t, **v):
      par, xq, xk, b, c = at.split(v)
      if cutw is not None:
        c = c * cutw
      f = lambda b, c: at.call(par, xq, xk, b, c, **idx)
      y = f(b, c)
      out = [H.eq('basis of the excluded entry', f(b.at[ex].set(t), c), y)]
      if 'adj_idx' in idx:
        rows = [(0, 0), (0, 1), (1, 0)]
        bl, cl = jnp.stack([b[r] for r in rows]), jnp.stack([c[r] for r in rows])
      else:
        bl, cl = b[:3], c[:3]
      out.append(H.eq('removed', at.call(par, xq, xk, bl, cl, **less), y))
      _, d = jax.jvp(lambda b: f(b, c), (b,), (jnp.zeros_like(b).at[ex].set(t),))
      out.append(H.eq('derivative', d, jnp.zeros_like(d)))
      # vector-Jacobian products: padding must not produce NaNs
      _, vjp = jax.vjp(lambda b, x: at.call(par, x, x, b, c, **idx), b, xq)
      gb, gx = vjp(jnp.ones_like(y))
      out.append(H.eq('gradient', gb[ex], jnp.zeros_like(gb[ex])))
      out.append(H.eq('gradient finite', gx - gx, jnp.zeros_like(gx)))
      return out
    inp = at.inputs()
    inp['t'] = H.Real(bsh, -B, B)
    return H.Case('', inp, prog, tol=1e-6, z3_timeout=30)
  return build


def _symbolic_graph(opt, N, E, sort=False):
  """scalar features, every index list: definition with symbolic indices."""
  def build():
    qsh = bsh = (1, 1, 1)
    idx0 = dict(dst_idx=jnp.zeros((E,), jnp.int32), src_idx=jnp.zeros((E,), jnp.int32))
    at = Att(opt, qsh, qsh, bsh, N, N, True, idx0)

    def prog(dst, src, **v):
      par, xq, xk, b, c = at.split(v)
      y = at.call(par, xq, xk, b, c, dst_idx=dst, src_idx=src)
      tree = at.par.tree_of(par)['params']
      one = lambda i: sum(jnp.where(i == k, xk[k], 0.0) for k in range(N))
      ks = [one(src[e]) for e in range(E)]
      out = []
      for i in range(N):
        d = [at.entry(tree, xq[i], ks[e], b[e])[0] for e in range(E)]
        num = [jnp.where(dst[e] == i, c[e] * jnp.exp(d[e]), 0.0) for e in range(E)]
        den = sum(num)
        acc = sum(n * at.message(tree, jnp.ones((1,)), ks[e], b[e]) for e, n in enumerate(num))
        o = e3x.nn.Dense(features=1, use_bias=False).apply({'params': {k: dict(kernel=w['kernel']) for k, w in tree['out'].items()}}, acc)
        bias = e3x.nn.Dense(features=1).apply({'params': tree['out']}, jnp.zeros_like(acc))
        out.append(H.eq(f'node {i}', (y[i] - bias) * jnp.where(den == 0, 1.0, den), o))
      return out
    inp = at.inputs()
    inp.update(dst=H.Int((E,), range(N + 1)), src=H.Int((E,), range(N)))
    return H.Case('', inp, prog, tol=1e-6, z3_timeout=30)
  return build


def cases(tier):
  out = []
  T = tier != 'quick'
  opts = [
      ('plain', dict(self_=True), (1, 4, 1), (1, 4, 1)),
      ('heads', dict(self_=True, num_heads=2, output_use_bias=False), (1, 1, 2), (1, 4, 1)),
      ('heads-vec', dict(num_heads=2, qkv_features=2, out_features=1, max_degree=1), (1, 4, 1), (1, 4, 1)),
      ('nov', dict(use_relative_positional_encoding_v=False, value_use_bias=True), (2, 4, 1), (1, 4, 1)),
      ('noqk', dict(use_relative_positional_encoding_qk=False, query_use_bias=True, key_use_bias=True, max_degree=1), (1, 4, 1), (1, 4, 1)),
      ('none', dict(self_=True, use_relative_positional_encoding_qk=False, use_relative_positional_encoding_v=False, num_heads=2), (2, 4, 2), (1, 4, 1)),
      ('fused', dict(self_=True, use_fused_tensor=True, use_basis_bias=True, cartesian_order=False), (2 if T else 1, 4, 1), (1, 4, 1)),
      ('nopseudo', dict(self_=True, include_pseudotensors=False, qkv_features=2), (1, 4, 1), (1, 9, 1) if T else (1, 4, 1)),
  ]
  edges = [(0, 1), (1, 0), (0, 2)]
  adj = [[1, 2], [0, 3], [3, 3]]
  for nm, o, sh, bsh in opts:
    for cut in (False, True):
      out.append((f'value-{nm}-sparse-{int(cut)}', _value(o, sh, sh, bsh, 3, 3, edges, False, cut)))
    out.append((f'value-{nm}-dense', _value(o, sh, sh, bsh, 3, 3, adj, True, True)))
    out.append((f'equiv-{nm}', _equiv(o, sh, sh, bsh, 2, 2, [(0, 1), (0, 0)] if not T else [(0, 1), (0, 0), (1, 0)], True)))
  # different formats of queries and keys
  for nm, o, qs, ks in [('q0k1', dict(max_degree=1), (1, 1, 1), (1, 4, 1)), ('q1k0', dict(), (1, 4, 2), (1, 1, 1)), ('q2k1', dict(max_degree=1), (2, 4, 1), (1, 4, 1)), ('q1k2', dict(max_degree=1), (1, 4, 1), (2, 1, 2))]:
    out.append((f'value-{nm}', _value(o, qs, ks, (1, 4, 1), 2, 3, [(0, 1), (1, 0), (0, 2)], False, True)))
    out.append((f'equiv-{nm}', _equiv(o, qs, ks, (1, 4, 1), 2, 3, [(0, 1), (0, 2)], True)))
  # cross attention, different numbers of queries and keys, dense lists with automatic and explicit masks
  cross = dict(use_relative_positional_encoding_qk=False, max_degree=0)
  for N, M, a in [(2, 4, [[0, 2, 3], [3, 1, 4]]), (4, 2, [[0, 1], [1, 2], [2, 2], [1, 0]])]:
    out.append((f'value-cross-dense-{N}{M}', _value(cross, (1, 1, 1), (1, 1, 1), (1, 1, 1), N, M, a, True, True)))
  out.append(('value-cross-sparse-42', _value(cross, (1, 1, 1), (1, 1, 1), (1, 1, 1), 4, 2, [(3, 1), (0, 0), (2, 1), (3, 0)], False, True)))
  out.append(('value-cross-sorted', _value(cross, (1, 1, 1), (1, 1, 1), (1, 1, 1), 3, 2, [(0, 1), (0, 0), (2, 1)], False, True, dict(num_segments=3, indices_are_sorted=True))))
  for kind in ('zero-sparse', 'pad-sparse', 'zero-dense', 'pad-dense', 'mask-dense'):
    out.append((f'local-{kind}', _local(dict(self_=True, max_degree=0), (1, 1, 1), (1, 1, 1), kind)))
    out.append((f'local-{kind}-2', _local(dict(self_=True, num_heads=2), (1, 1, 2), (1, 4, 1), kind)))
  out.append(('graphs-N2E2', _symbolic_graph(dict(self_=True), 2, 2)))
  out.append(('graphs-N2E3', _symbolic_graph(dict(self_=True), 2, 3)))
  if T:
    out.append(('graphs-N3E3', _symbolic_graph(dict(self_=True), 3, 3)))
  return out
