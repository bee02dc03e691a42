"""C07: indexed reductions."""
import itertools
import jax
import jax.numpy as jnp
import numpy as np
import e3x
from sx import harness as H

INFO = dict(
    functions=['e3x.ops.indexed_sum', 'e3x.ops.indexed_min', 'e3x.ops.indexed_max', 'e3x.ops.indexed_softmax', 'e3x.ops.gather_src/gather_dst as used by keepdims'],
    bounds='symbolic destination indices (every value in range and the padding value), symbolic masks and real (and, for sums, integer) values; up to 3 destinations and 4 entries (quick), 4 and 5 (thorough); batch and feature dimensions of size 2',
    outside='negative indices (wrap-around); the values returned for masked/padded entries and empty destinations; indices_are_sorted on unsorted lists; rounding and overflow (C19)',
    explanation='Indices are finite-domain solver variables; the reductions are compared to the definition (sum), or to its characterisation (bound and attained: min, max) for all index/mask/value assignments.',
    assumptions=['real arithmetic'])

FN = dict(sum=e3x.ops.indexed_sum, min=e3x.ops.indexed_min, max=e3x.ops.indexed_max)


def _names(mode):
  return FN[mode]


def _claims(mode, tag, r, xs, ms, **kw):
  """r: scalar array result; xs: list of value arrays; ms: list of member conditions."""
  out = []
  some = ms[0]
  for m in ms[1:]:
    some = jnp.logical_or(some, m)
  if mode == 'sum':
    ref = sum(jnp.where(m, x, jnp.zeros_like(x)) for x, m in zip(xs, ms))
    return [H.eq(f'{tag}', r, ref)]
  att = jnp.zeros_like(some)
  for x, m in zip(xs, ms):
    bad = (r > x) if mode == 'min' else (r < x)
    out.append(H.true(f'{tag} bound', jnp.logical_not(jnp.logical_and(m, bad))))
    att = jnp.logical_or(att, jnp.logical_and(m, r == x))
  out.append(H.true(f'{tag} attained', jnp.logical_or(att, jnp.logical_not(some))))
  return out


def _sparse(mode, N, E, feat=(), batch=(), keepdims=False):
  def build():
    def prog(x, dst):
      y = FN[mode](x, dst_idx=dst, num_segments=N, keepdims=keepdims or None)
      H.static('shape', y.shape == (x.shape if keepdims else (*batch, N, *feat)), f'shape {y.shape}')
      H.static('dtype', y.dtype == x.dtype, f'dtype {y.dtype}')
      out = []
      for b in itertools.product(*map(range, batch)):
        xb, db, yb = x[b], dst[b], y[b]
        ex = lambda c: jnp.broadcast_to(c, feat)
        if keepdims:
          for j in range(E):
            ms = [ex((db[k] == db[j]) & (db[j] < N)) for k in range(E)]
            if mode == 'sum':
              # padded entries read an arbitrary row
              ref = sum(jnp.where(m, xb[k], jnp.zeros_like(xb[k])) for k, m in enumerate(ms))
              out.append(H.eq(f'{b}[{j}]', yb[j], ref, where=ex(db[j] < N)))
            else:
              out += _claims(mode, f'{b}[{j}]', yb[j], [xb[k] for k in range(E)], ms)
        else:
          for i in range(N):
            out += _claims(mode, f'{b}[{i}]', yb[i], [xb[k] for k in range(E)], [ex(db[k] == i) for k in range(E)])
      return out
    return H.Case('', dict(x=H.Real((*batch, E, *feat)), dst=H.Int((*batch, E), range(N + 1))), prog)
  return build


def _dense(mode, N, M, feat=(), batch=(), keepdims=False):
  def build():
    def prog(x, where):
      adj = jnp.zeros((*batch, N, M), dtype=jnp.int32)
      y = FN[mode](x, adj_idx=adj, where=where, keepdims=keepdims)
      want = (*batch, N, 1, *feat) if keepdims else (*batch, N, *feat)
      H.static('shape', y.shape == want, f'shape {y.shape}')
      H.static('dtype', y.dtype == x.dtype, f'dtype {y.dtype}')
      y = y.reshape((*batch, N, *feat))
      out = []
      for b in itertools.product(*map(range, batch)):
        for i in range(N):
          out += _claims(mode, f'{b}[{i}]', y[b][i], [x[b][i, k] for k in range(M)],
                         [jnp.broadcast_to(where[b][i, k], feat) for k in range(M)])
      return out
    return H.Case('', dict(x=H.Real((*batch, N, M, *feat)), where=H.Bool((*batch, N, M))), prog)
  return build


def _agree(mode, N, M):
  """dense lists with padding vs the sparse list of the same entries."""
  def build():
    def prog(x, adj):
      where = adj < N
      yd = FN[mode](x, adj_idx=adj, where=where)
      dst = jnp.where(where, jnp.arange(N)[:, None], N).reshape(-1)
      ys = FN[mode](x.reshape(N * M, *x.shape[2:]), dst_idx=dst, num_segments=N)
      some = where.any(axis=1)
      if mode == 'sum':
        some = jnp.ones_like(some)
      return [H.eq('dense = sparse', yd, ys, where=some)]
    return H.Case('', dict(x=H.Real((N, M)), adj=H.Int((N, M), range(N + 1))), prog)
  return build


def _soft_ref(xs, ms, mk, j):
  num = jnp.exp(xs[j]) * mk[j]
  den = sum(jnp.where(m, jnp.exp(xs[k]) * mk[k], 0.0) for k, m in enumerate(ms))
  return num, den


def _softmax_sparse(N, E, masked, batch=()):
  def build():
    def prog(x, dst, m=None):
      y = e3x.ops.indexed_softmax(x, m, dst_idx=dst, num_segments=N)
      H.static('shape', y.shape == x.shape, f'shape {y.shape}')
      out = []
      for b in itertools.product(*map(range, batch)):
        xb, db, yb = x[b], dst[b], y[b]
        mk = m[b] if masked else jnp.ones(E)
        for j in range(E):
          ms = [(db[k] == db[j]) & (db[j] < N) for k in range(E)]
          num, den = _soft_ref(xb, ms, mk, j)
          out.append(H.eq(f'softmax{b}[{j}]', yb[j] * den, num, where=db[j] < N))
      return out
    inp = dict(x=H.Real((*batch, E), -20, 20), dst=H.Int((*batch, E), range(N + 1)))
    if masked:
      inp['m'] = H.Real((*batch, E), 0.1, 1.0)
    return H.Case('', inp, prog, tol=1e-7)
  return build


def _softmax_dense(N, M, masked, batch=()):
  def build():
    def prog(x, where, m=None):
      adj = jnp.zeros((*batch, N, M), dtype=jnp.int32)
      y = e3x.ops.indexed_softmax(x, m, adj_idx=adj, where=where)
      H.static('shape', y.shape == x.shape, f'shape {y.shape}')
      out = []
      for b in itertools.product(*map(range, batch)):
        for i in range(N):
          mk = m[b][i] if masked else jnp.ones(M)
          for j in range(M):
            num, den = _soft_ref(x[b][i], [where[b][i, k] for k in range(M)], mk, j)
            out.append(H.eq(f'softmax{b}[{i},{j}]', y[b][i, j] * den, num, where=where[b][i, j]))
      return out
    inp = dict(x=H.Real((*batch, N, M), -20, 20), where=H.Bool((*batch, N, M)))
    if masked:
      inp['m'] = H.Real((*batch, N, M), 0.1, 1.0)
    return H.Case('', inp, prog, tol=1e-7)
  return build


def _softmax_zero(N, E, dense):
  """zero mask entries get weight zero and influence nobody."""
  def build():
    def prog(x, t):
      m = jnp.ones((E,)).at[0].set(0.0)
      x2 = x.at[0].set(t)
      if dense:
        f = lambda v: e3x.ops.indexed_softmax(v[None], m[None], adj_idx=jnp.zeros((1, E), jnp.int32), where=jnp.ones((1, E), bool))[0]
      else:
        f = lambda v: e3x.ops.indexed_softmax(v, m, dst_idx=jnp.zeros((E,), jnp.int32), num_segments=N)
      y, y2 = f(x), f(x2)
      return [H.eq('zero weight', y[0], 0.0), H.eq('no influence', y, y2), H.eq('sum', y.sum(), 1.0)]
    return H.Case('', dict(x=H.Real((E,), -20, 20), t=H.Real((), -20, 20)), prog, tol=1e-7)
  return build


def _softmax_grad(N, E, dense, masked):
  """excluded entries influence neither results nor derivatives, also for empty destinations."""
  def build():
    def prog(x, c, w, m=None):
      if dense:
        on = w
        f = lambda x, m: e3x.ops.indexed_softmax(x, m, adj_idx=jnp.zeros((N, E), jnp.int32), where=on)
      else:
        on = w < N
        f = lambda x, m: e3x.ops.indexed_softmax(x, m, dst_idx=w, num_segments=N)
      mm = jnp.ones_like(x) if m is None else m
      g = lambda x, m: jnp.sum(jnp.where(on, c * f(x, m), 0.0))
      gx, gm = jax.grad(g, argnums=(0, 1))(x, mm)
      y = jnp.where(on, f(x, mm), 0.0)
      s = (y * c)
      out = [H.eq('no derivative', jnp.where(on, 0.0, gx), jnp.zeros_like(gx))]
      if masked:
        out.append(H.eq('no derivative (mask)', jnp.where(on, 0.0, gm), jnp.zeros_like(gm)))
      if dense:
        tot = jnp.sum(s, axis=1, keepdims=True)
      else:
        tot = sum(jnp.where(w == w[k], s[k], 0.0) for k in range(E))
      # softmax derivative: y (c - sum y c)
      out.append(H.eq('derivative', jnp.where(on, gx, 0.0), y * (c - tot)))
      return out
    sh = (N, E) if dense else (E,)
    inp = dict(x=H.Real(sh, -20, 20), c=H.Real(sh), w=H.Bool(sh) if dense else H.Int(sh, range(N + 1)))
    if masked:
      inp['m'] = H.Real(sh, 0.1, 1.0)
    return H.Case('', inp, prog, tol=1e-7)
  return build


def _softmax_allzero(N, E, dense):
  """a multiplicative mask that vanishes for a whole destination gives zero weights."""
  def build():
    def prog(x):
      if dense:
        m = jnp.ones((N, E)).at[0].set(0.0)
        y = e3x.ops.indexed_softmax(x, m, adj_idx=jnp.zeros((N, E), jnp.int32), where=jnp.ones((N, E), bool))
        return [H.eq('zero', y[0], jnp.zeros((E,))), H.eq('sum', y[1:].sum(axis=1), jnp.ones((N - 1,)))]
      dst = jnp.array([0] * E + [1] * E)
      m = jnp.array([0.0] * E + [1.0] * E)
      y = e3x.ops.indexed_softmax(x.reshape(-1), m, dst_idx=dst, num_segments=N)
      return [H.eq('zero', y[:E], jnp.zeros((E,))), H.eq('sum', y[E:].sum(), 1.0)]
    return H.Case('', dict(x=H.Real((2, E), -20, 20)), prog, tol=1e-7)
  return build


def cases(tier):
  out = []
  q = tier == 'quick'
  for mode in FN:
    N, E = (2, 4) if q else (3, 5)
    out.append((f'sparse-{mode}', _sparse(mode, N, E)))
    out.append((f'sparse-{mode}-3', _sparse(mode, 3, 3)))
    out.append((f'sparse-{mode}-feat', _sparse(mode, 2, 3, feat=(2,))))
    out.append((f'sparse-{mode}-feat2', _sparse(mode, 2, 2, feat=(2, 2))))
    out.append((f'sparse-{mode}-batch', _sparse(mode, 2, 3, batch=(2,))))
    out.append((f'sparse-{mode}-batch2', _sparse(mode, 2, 2, batch=(2, 2), feat=(2,))))
    out.append((f'sparse-{mode}-keep', _sparse(mode, 2, 3, keepdims=True)))
    out.append((f'sparse-{mode}-keep-batch', _sparse(mode, 2, 2, feat=(2,), batch=(2,), keepdims=True)))
    out.append((f'dense-{mode}', _dense(mode, 2, 4)))
    out.append((f'dense-{mode}-sq', _dense(mode, 3, 3, feat=(2,))))
    out.append((f'dense-{mode}-batch', _dense(mode, 2, 3, batch=(2,), feat=(2,))))
    out.append((f'dense-{mode}-keep', _dense(mode, 2, 3, batch=(2,), keepdims=True)))
    out.append((f'agree-{mode}', _agree(mode, 2, 2)))
  for masked in (False, True):
    t = 'm' if masked else ''
    out.append((f'softmax-sparse{t}', _softmax_sparse(2, 3, masked)))
    out.append((f'softmax-sparse{t}-batch', _softmax_sparse(2, 2, masked, batch=(2,))))
    out.append((f'softmax-dense{t}', _softmax_dense(2, 3, masked)))
    out.append((f'softmax-dense{t}-batch', _softmax_dense(2, 2, masked, batch=(2,))))
  for dense in (False, True):
    out.append((f'softmax-allzero-{int(dense)}', _softmax_allzero(2, 2, dense)))
    for masked in (False, True):
      out.append((f'softmax-grad-{int(dense)}{int(masked)}', _softmax_grad(2, 2, dense, masked)))
    out.append((f'softmax-zero-{"dense" if dense else "sparse"}', _softmax_zero(2, 3, dense)))
  return out
