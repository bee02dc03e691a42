"""C08: gathers and index-list conversions."""
import collections
import itertools
import json
import os
import time
import jax
import jax.numpy as jnp
import numpy as np
import e3x
from sx import harness as H
from sx import paths as PX
from sx import sarr as S
from sx import solve
from sx.poly import Unsupported

z3 = solve.z3
INFO = dict(
    functions=['e3x.ops.gather_src', 'e3x.ops.gather_dst', 'e3x.ops.dense_to_sparse_indices', 'e3x.ops.sparse_to_dense_indices', 'e3x.ops.dense_pairwise_indices', 'e3x.ops.sparse_pairwise_indices'],
    bounds='gathers: all index values, all real inputs, up to 3 nodes, 3 slots, batch and feature dimensions of size 2; conversions: all index values incl. padding (symbolic) for up to 2x2x2 / 3x2 (dense), 3 and 2x2 entries (sparse; quick), every feasible path of the eager code; pairwise lists: 1..8 nodes with a symbolic pair',
    outside='negative indices; lists larger than the bound; order of the converted entries; source indices at or above pad_idx in sparse lists',
    explanation='Gathers: traced and compared with finite-domain symbolic indices. Conversions run eagerly on symbolic integer arrays, masks and sizes fork the path, and on every path z3 refutes that some (destination, source) pair is lost, duplicated or invented.',
    assumptions=['the jnp functions used by the conversions behave as the corresponding models in sx/sarr.py (counterexamples are replayed with the real ones)'])


def _gather(kind, N, M, batch=(), feat=()):
  """kind: src-dense, src-sparse, dst-sparse, dst-dense."""
  def build():
    dense = kind.endswith('dense')
    ishape = (*batch, N, M) if dense else (*batch, M)

    def prog(x, idx):
      f = e3x.ops.gather_src if kind.startswith('src') else e3x.ops.gather_dst
      if dense:
        y = f(x, adj_idx=idx)
      elif kind.startswith('src'):
        y = f(x, src_idx=idx)
      else:
        y = f(x, dst_idx=idx)
      if kind == 'dst-dense':
        want = (*batch, N, 1, *feat)
        H.static('shape', y.shape == want, f'shape {y.shape}')
        return [H.eq('dst', jnp.reshape(y, x.shape), x)]
      H.static('shape', y.shape == (*ishape, *feat), f'shape {y.shape}')
      out = []
      for b in itertools.product(*map(range, batch)):
        for p in itertools.product(*map(range, ishape[len(batch):])):
          i = idx[b][p]
          ref = sum(jnp.where(i == n, x[b][n], jnp.zeros_like(x[b][n])) for n in range(N))
          out.append(H.eq(f'{b}{p}', y[b][p], ref))
      return out
    return H.Case('', dict(x=H.Real((*batch, N, *feat)), idx=H.Int(ishape, range(N))), prog)
  return build


def _gather_agree(N, M):
  def build():
    def prog(x, adj):
      d = e3x.ops.gather_src(x, adj_idx=adj)
      s = e3x.ops.gather_src(x, src_idx=adj.reshape(-1))
      dst = jnp.repeat(jnp.arange(N), M)
      gd = jnp.broadcast_to(e3x.ops.gather_dst(x, adj_idx=adj), d.shape)
      gs = e3x.ops.gather_dst(x, dst_idx=dst)
      return [H.eq('src', d.reshape(s.shape), s), H.eq('dst', gd.reshape(gs.shape), gs)]
    return H.Case('', dict(x=H.Real((N, 2)), adj=H.Int((N, M), range(N))), prog)
  return build


def _fail(res, name, outdir, inputs, detail):
  res.status, res.detail = 'violation', detail
  os.makedirs(outdir, exist_ok=True)
  res.replay = os.path.join(outdir, f'C08-{name}.json')
  with open(res.replay, 'w') as f:
    json.dump(dict(property='C08', case=name, inputs=inputs, failures=[detail]), f, indent=1)


def _eq(a, b):
  """z3 Bool for equality of two scalars."""
  A = a.e if isinstance(a, PX.Sym) else z3.IntVal(int(a))
  B = b.e if isinstance(b, PX.Sym) else z3.IntVal(int(b))
  return A == B


def _lt(a, n):
  A = a.e if isinstance(a, PX.Sym) else z3.IntVal(int(a))
  return A < n


def _cnt(cs):
  return z3.Sum([z3.If(c, 1, 0) for c in cs]) if cs else z3.IntVal(0)


def _obj(x):
  return np.asarray(S.raw(x), dtype=object)


def _convert(kind, batch, shape, N, V, pad):
  """kind d2s / s2d; V: index values 0..V-1; pad: pad_idx argument or None."""
  def build():
    def run(name, seed, outdir):
      res = H.Result(name)
      solve.STATS = solve.Stats()
      t0 = time.time()
      mod = e3x.ops.indexed
      B = list(itertools.product(*map(range, batch)))
      try:
        if kind == 'd2s':
          arr, vs = S.ints('adj', (*batch, *shape))
          base = [z3.And(v >= 0, v < V) for v in vs]
          ins = [arr]
          call = lambda: e3x.ops.dense_to_sparse_indices(arr, pad_idx=pad)
        else:
          dst, v1 = S.ints('dst', (*batch, *shape))
          src, v2 = S.ints('src', (*batch, *shape))
          vs = v1 + v2
          base = [z3.And(v >= 0, v < V) for v in vs]
          lim = pad
          if pad is None:
            # default padding value: largest destination + 1
            mx = v1[0]
            for v in v1[1:]:
              mx = z3.If(v > mx, v, mx)
            base += [v <= mx for v in v2]
          else:
            base += [z3.Implies(d < pad, s < pad) for d, s in zip(v1, v2)]
          ins = [dst, src]
          call = lambda: e3x.ops.sparse_to_dense_indices(dst, src, pad_idx=pad)
        base = z3.And(base)
        res.symbols = len(vs)
        with S.shim_jnp(mod), PX.shim(mod):
          ps = PX.explore(call, base=base, limit=20000)
        if not ps:
          raise Unsupported('no path')
        for pc, out in ps:
          res.claims += 1
          res.scalars += 1
          res.nontrivial += 1
          bad = _bad(kind, batch, shape, ins, out, pad, V, B)
          m = PX.refute(pc, bad)
          if m is not None:
            vals = [m.eval(v, model_completion=True).as_long() for v in vs]
            d = _confirm(kind, batch, shape, vals, pad, B)
            if d is None:
              raise Unsupported(f'counterexample {vals} not confirmed ({out})')
            _fail(res, name, outdir, vals, d)
            break
        res.eqns = len(ps)
        res.detail = res.detail or f'{len(ps)} paths'
      except Unsupported as e:
        res.status, res.detail = 'inconclusive', str(e)
      res.stats = solve.STATS.as_dict()
      res.wall = time.time() - t0
      return res
    return run
  return build


def _bad(kind, batch, shape, ins, out, pad, V, B):
  k, v = out
  if k == 'raise':
    return z3.BoolVal(True)
  bads = []
  if kind == 'd2s':
    adj = ins[0].a
    dst, src = (_obj(x) for x in v)
    if dst.shape != src.shape or dst.ndim != len(batch) + 1 or dst.shape[:-1] != tuple(batch):
      return z3.BoolVal(True)
    P = V if pad is None else pad
    counts = []
    for b in B:
      for i in range(shape[0]):
        for s in range(P):
          want = _cnt([_eq(adj[b][i, j], s) for j in range(shape[1])])
          got = _cnt([z3.And(_eq(d, i), _eq(q, s)) for d, q in zip(dst[b], src[b])])
          bads.append(want != got)
      # nothing else: every entry is real (counted above) or a padding pair
      real = _cnt([_lt(adj[b][i, j], P) for i in range(shape[0]) for j in range(shape[1])])
      counts.append(real)
      if pad is not None:
        padn = _cnt([z3.And(_eq(d, pad), _eq(q, pad)) for d, q in zip(dst[b], src[b])])
        bads.append(real + padn != dst.shape[-1])
      else:
        bads.append(real != dst.shape[-1])
    # no more padding than necessary
    bads.append(z3.And([c < dst.shape[-1] for c in counts]))
    return z3.Or(bads)
  dst, src = ins[0].a, ins[1].a
  adj = _obj(v)
  if adj.ndim != len(batch) + 2 or adj.shape[:len(batch)] != tuple(batch):
    return z3.BoolVal(True)
  n = adj.shape[-2]
  if pad is not None and n != pad:
    return z3.BoolVal(True)
  for b in B:
    for d in range(V if pad is None else pad):
      for s in range(n):
        want = _cnt([z3.And(_eq(x, d), _eq(y, s)) for x, y in zip(dst[b], src[b])])
        got = _cnt([_eq(q, s) for q in adj[b][d]]) if d < n else z3.IntVal(0)
        bads.append(want != got)
    bads += [z3.Not(z3.Or(_lt(q, n), _eq(q, n))) for q in adj[b].flat]
  return z3.Or(bads)


def _confirm(kind, batch, shape, vals, pad, B):
  """Real code on the counterexample."""
  if kind == 'd2s':
    adj = np.array(vals, dtype=np.int32).reshape(*batch, *shape)
    try:
      d, s = e3x.ops.dense_to_sparse_indices(jnp.asarray(adj), pad_idx=pad)
    except Exception as e:
      return f'dense_to_sparse_indices({adj.tolist()}, pad_idx={pad}) raised {type(e).__name__}: {e}'
    P = pad if pad is not None else int(adj.max()) + 1
    d, s = np.asarray(d), np.asarray(s)
    if d.shape != s.shape or d.shape[:-1] != tuple(batch):
      return f'shapes {d.shape}, {s.shape}'
    most = 0
    for b in B:
      want = collections.Counter((i, int(x)) for i in range(shape[0]) for x in adj[b][i] if x < P)
      got = collections.Counter((int(x), int(y)) for x, y in zip(d[b], s[b]) if x < P or y < P)
      most = max(most, sum(want.values()))
      if want != got or any((x >= P or y >= P) and (x, y) != (P, P) for x, y in zip(d[b], s[b])):
        return f'dense_to_sparse_indices({adj.tolist()}, pad_idx={pad}) = {d.tolist()}, {s.tolist()}'
    if most != d.shape[-1]:
      return f'dense_to_sparse_indices({adj.tolist()}, pad_idx={pad}) = {d.tolist()}, {s.tolist()}: wrong number of entries'
    return None
  n = int(np.prod([*batch, *shape]))
  dst = np.array(vals[:n], dtype=np.int32).reshape(*batch, *shape)
  src = np.array(vals[n:], dtype=np.int32).reshape(*batch, *shape)
  try:
    adj = np.asarray(e3x.ops.sparse_to_dense_indices(jnp.asarray(dst), jnp.asarray(src), pad_idx=pad))
  except Exception as e:
    return f'sparse_to_dense_indices({dst.tolist()}, {src.tolist()}, pad_idx={pad}) raised {type(e).__name__}: {e}'
  P = pad if pad is not None else int(dst.max()) + 1
  bad = adj.shape[-2] != P or adj.shape[:-2] != tuple(batch)
  if not bad:
    for b in B:
      want = collections.Counter((int(x), int(y)) for x, y in zip(dst[b], src[b]) if x < P)
      got = collections.Counter((i, int(y)) for i in range(P) for y in adj[b][i] if y != P)
      bad = bad or want != got
  return f'sparse_to_dense_indices({dst.tolist()}, {src.tolist()}, pad_idx={pad}) = {adj.tolist()}' if bad else None


def _roundtrip(batch, shape, N):
  """sparse -> dense -> sparse keeps the pairs (explicit padding)."""
  def build():
    def run(name, seed, outdir):
      res = H.Result(name)
      solve.STATS = solve.Stats()
      t0 = time.time()
      mod = e3x.ops.indexed
      B = list(itertools.product(*map(range, batch)))
      dst, v1 = S.ints('dst', (*batch, *shape))
      src, v2 = S.ints('src', (*batch, *shape))
      vs = v1 + v2
      base = z3.And([z3.And(v >= 0, v <= N) for v in vs] + [(d == N) == (s == N) for d, s in zip(v1, v2)])
      res.symbols = len(vs)
      try:
        with S.shim_jnp(mod), PX.shim(mod):
          def call():
            adj = e3x.ops.sparse_to_dense_indices(dst, src, pad_idx=N)
            return e3x.ops.dense_to_sparse_indices(adj, pad_idx=N) if adj.shape[-1] else None
          ps = PX.explore(call, base=base, limit=20000)
        for pc, (k, v) in ps:
          res.claims += 1
          res.scalars += 1
          res.nontrivial += 1
          if k == 'raise':
            bad = z3.BoolVal(True)
          else:
            bads = []
            for b in B:
              for i in range(N):
                for s in range(N):
                  want = _cnt([z3.And(_eq(x, i), _eq(y, s)) for x, y in zip(dst.a[b], src.a[b])])
                  if v is None:
                    got = z3.IntVal(0)
                  else:
                    got = _cnt([z3.And(_eq(x, i), _eq(y, s)) for x, y in zip(_obj(v[0])[b], _obj(v[1])[b])])
                  bads.append(want != got)
            bad = z3.Or(bads)
          m = PX.refute(pc, bad)
          if m is not None:
            vals = [m.eval(x, model_completion=True).as_long() for x in vs]
            n = len(v1)
            d = np.array(vals[:n], dtype=np.int32).reshape(*batch, *shape)
            s = np.array(vals[n:], dtype=np.int32).reshape(*batch, *shape)
            msg = None
            try:
              adj = e3x.ops.sparse_to_dense_indices(jnp.asarray(d), jnp.asarray(s), pad_idx=N)
              d2, s2 = e3x.ops.dense_to_sparse_indices(adj, pad_idx=N) if adj.shape[-1] else (np.zeros((*batch, 0)),) * 2
              for b in B:
                f = lambda p, q: collections.Counter((int(x), int(y)) for x, y in zip(np.asarray(p[b]), np.asarray(q[b])) if x < N)
                if f(d, s) != f(d2, s2):
                  msg = f'round trip of {d.tolist()}, {s.tolist()} gives {np.asarray(d2).tolist()}, {np.asarray(s2).tolist()}'
            except Exception as e:
              msg = f'round trip of {d.tolist()}, {s.tolist()} raised {type(e).__name__}: {e}'
            if msg is None:
              raise Unsupported(f'counterexample {vals} not confirmed ({v})')
            _fail(res, name, outdir, vals, msg)
            break
        res.eqns = len(ps)
        res.detail = res.detail or f'{len(ps)} paths'
      except Unsupported as e:
        res.status, res.detail = 'inconclusive', str(e)
      res.stats = solve.STATS.as_dict()
      res.wall = time.time() - t0
      return res
    return run
  return build


def _pairwise(num):
  def build():
    def run(name, seed, outdir):
      res = H.Result(name)
      solve.STATS = solve.Stats()
      t0 = time.time()
      i, j = z3.Ints('i j')
      res.symbols = 2
      for ms in (True, False):
        adj = np.asarray(e3x.ops.dense_pairwise_indices(num, mask_self=ms))
        dst, src = map(np.asarray, e3x.ops.sparse_pairwise_indices(num, mask_self=ms))
        if ms:
          dflt = np.asarray(e3x.ops.dense_pairwise_indices(num))
          d2 = [np.asarray(v) for v in e3x.ops.sparse_pairwise_indices(num)]
          if dflt.shape != adj.shape or (dflt != adj).any() or any(a.shape != b.shape or (a != b).any() for a, b in zip(d2, (dst, src))):
            _fail(res, name, outdir, [num], f'default mask_self is not True for num={num}')
        if adj.shape[0] != num or not np.issubdtype(adj.dtype, np.integer) or not np.issubdtype(dst.dtype, np.integer):
          _fail(res, name, outdir, [num], f'dense_pairwise_indices({num}) has shape {adj.shape}, dtype {adj.dtype}')
          continue
        want = z3.If(z3.And(i >= 0, i < num, j >= 0, j < num, z3.Or(i != j, z3.BoolVal(not ms))), 1, 0)
        dn = _cnt([z3.And(i == a, j == int(adj[a, b])) for a in range(adj.shape[0]) for b in range(adj.shape[1])])
        sp = _cnt([z3.And(i == int(a), j == int(b)) for a, b in zip(dst, src)])
        for nm, e in (('dense', dn), ('sparse', sp)):
          res.claims += 1
          res.scalars += 1
          res.nontrivial += 1
          m = PX.refute(z3.BoolVal(True), e != want)
          if m is not None:
            a, b = (m.eval(v, model_completion=True).as_long() for v in (i, j))
            _fail(res, name, outdir, [num, a, b], f'{nm}_pairwise_indices({num}, mask_self={ms}): pair ({a}, {b}) occurs {m.eval(e)} times')
      res.stats = solve.STATS.as_dict()
      res.wall = time.time() - t0
      return res
    return run
  return build


def _empty(batch):
  def build():
    def run(name, seed, outdir):
      res = H.Result(name)
      res.claims = res.scalars = 1
      idx = jnp.zeros((*batch, 0), 'int32')
      for pad in (None, 3):
        adj = e3x.ops.sparse_to_dense_indices(idx, idx, pad_idx=pad)
        ok = adj.ndim == len(batch) + 2 and adj.shape[:-2] == batch and adj.dtype == idx.dtype and not bool(jnp.any(adj < adj.shape[-2]))
        if not ok:
          _fail(res, name, outdir, [], f'empty list of shape {idx.shape} becomes {adj}')
      return res
    return run
  return build


def cases(tier):
  out = []
  q = tier == 'quick'
  for kind in ('src-dense', 'src-sparse', 'dst-sparse', 'dst-dense'):
    out.append((f'gather-{kind}', _gather(kind, 3, 3)))
    out.append((f'gather-{kind}-feat', _gather(kind, 3, 2, feat=(2, 2))))
    out.append((f'gather-{kind}-batch', _gather(kind, 2, 3, batch=(2,), feat=(2,))))
    out.append((f'gather-{kind}-batch2', _gather(kind, 2, 2, batch=(2, 3), feat=(2,))))
  out.append(('gather-agree', _gather_agree(3, 2)))
  out.append(('d2s-pad', _convert('d2s', (), (2, 2), 2, 3, 2)))
  out.append(('d2s-3', _convert('d2s', (), (3, 2), 3, 4, 3)))
  out.append(('d2s-wide', _convert('d2s', (), (2, 3), 2, 3, 2)))
  out.append(('d2s-none', _convert('d2s', (), (2, 2), 2, 2, None)))
  out.append(('d2s-batch', _convert('d2s', (2,), (2, 2), 2, 3, 2)))
  out.append(('d2s-batch2', _convert('d2s', (2, 1), (2, 1), 2, 3, 2)))
  out.append(('s2d-pad', _convert('s2d', (), (3,), 2, 3, 2)))
  out.append(('s2d-3', _convert('s2d', (), (3,), 3, 4, 3)))
  out.append(('s2d-none', _convert('s2d', (), (2,), 2, 3, None)))
  out.append(('s2d-batch', _convert('s2d', (2,), (2,), 2, 3, 2)))
  out.append(('s2d-batch2', _convert('s2d', (1, 2), (2,), 2, 3, 2)))
  out.append(('roundtrip', _roundtrip((), (3,), 2)))
  out.append(('roundtrip-batch', _roundtrip((2,), (2,), 2)))
  # entries beyond pad_idx are padding, too
  out.append(('d2s-beyond', _convert('d2s', (), (2, 2), 2, 5, 2)))
  out.append(('d2s-beyond-batch', _convert('d2s', (2,), (2, 1), 2, 4, 2)))
  out.append(('s2d-beyond', _convert('s2d', (), (3,), 2, 5, 2)))
  out.append(('s2d-beyond-batch', _convert('s2d', (2,), (2,), 2, 4, 2)))
  if not q:
    out.append(('s2d-4', _convert('s2d', (), (4,), 3, 4, 3)))
    out.append(('d2s-33', _convert('d2s', (), (3, 3), 3, 4, 3)))
  # more batch elements than nodes
  out.append(('s2d-batch3', _convert('s2d', (3,), (1,), 2, 3, 2)))
  out.append(('d2s-batch3', _convert('d2s', (3,), (2, 1), 2, 3, 2)))
  # nothing to convert
  for b, shp in itertools.product(((), (2,), (1, 2)), ((2, 0), (0, 2), (0, 0))):
    out.append((f'd2s-empty-{len(b)}-{shp[0]}{shp[1]}', _convert('d2s', b, shp, 2, 3, 2)))
  for b in ((), (2,), (1, 2)):
    out.append((f's2d-empty-{len(b)}', _empty(b)))
  for n in range(1, 9):
    out.append((f'pairwise-{n}', _pairwise(n)))
  return out
