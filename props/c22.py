"""C22: matrices assembled from irreps."""
import itertools
import math
import jax
import jax.numpy as jnp
import numpy as np
import e3x
from e3x.matrix import matmat as M
from sx import harness as H
from sx import oracle as O

INFO = dict(
    functions=['e3x.matrix.matmat.' + f for f in ('make_square_matrix', 'make_rectangular_matrix', 'combine_irreps', 'get_traces', 'init_matrix_irreps_weights', 'make_dict_irreps_mult', 'compute_side_lengths')],
    bounds='all values of the irreps, inputs, weights and matrices, all rotations about x, y and z; degree lists of up to 3 entries from 0..2 (quick) / 0..3 (thorough) in any order with repetitions, multiplicity 1..2, max_degree from the largest degree to beyond the largest coupled degree, with and without the identity shift; multiplicities counted for all degree lists of up to 3 degrees 0..4',
    outside='larger degree lists and multiplicities; the statistics of jax.random',
    explanation='The real functions run on symbolic irreps; the matrix must transform as D^T M D, its squared Frobenius norm must be the squared norm of all irreps it was made from (each used exactly once, orthonormally), and the trace helper must return the traces of the blocks, which are invariant.',
    assumptions=['matrix rotations of a degree are taken from the independent oracle'])


def mults(degrees, max_degree):
  r = {}
  for a in degrees:
    for b in degrees:
      for l in range(abs(a - b), a + b + 1):
        if max_degree is None or l <= max_degree:
          r[l] = r.get(l, 0) + 1
  return r


def dbig(t, degrees, mult, axis):
  D = O.dmat(t, max(degrees), axis, True)
  n = sum(2 * l + 1 for l in degrees) * mult
  out = jnp.zeros((n, n), D.dtype)
  s = 0
  for l in degrees:
    for _ in range(mult):
      w = 2 * l + 1
      out = out.at[s:s + w, s:s + w].set(D[l * l:(l + 1) ** 2, l * l:(l + 1) ** 2])
      s += w
  return out


def _square(degrees, mult, max_degree, axis, extra=0):
  """extra: additional unused columns in the irreps."""
  def build():
    cnt = mults(degrees, max_degree)
    top = min(max_degree, 2 * max(degrees))
    names = [f'h{l}' for l in range(top + 1)]
    inp = {f'h{l}': H.Real((2 * l + 1, cnt.get(l, 0) * mult * mult + extra)) for l in range(top + 1)}
    side = sum(2 * l + 1 for l in degrees) * mult

    def prog(t, **kw):
      irr = [kw[n] for n in names]
      f = lambda h, s=False: M.make_square_matrix(h, degrees, mult, max_degree, s, 'high')
      m = f(irr)
      H.static('shape', m.shape == (side, side), f'{m.shape}')
      D = O.dmat(t, max(top, 1), axis, True)
      rot = [jnp.einsum('mf,mn->nf', h, D[l * l:(l + 1) ** 2, l * l:(l + 1) ** 2]) for l, h in enumerate(irr)]
      m2 = f(rot)
      B = dbig(t, degrees, mult, axis)
      out = [H.eq('rotation', m2, B.T @ m @ B)]
      if not extra:
        out.append(H.eq('every irrep used once', jnp.sum(m * m), sum(jnp.sum(h * h) for h in irr)))
      ms = f(irr, True)
      out.append(H.eq('identity shift', ms, m + jnp.eye(side)))
      tr = M.get_traces(m, degrees, mult, False)
      H.static('number of traces', tr.shape == (len(degrees) * mult * mult,), f'{tr.shape}')
      out.append(H.eq('traces are invariant', M.get_traces(m2, degrees, mult, False), tr))
      out.append(H.eq('traces without identity', M.get_traces(ms, degrees, mult, True), tr))
      return out
    return H.Case('', dict(t=H.Angle(), **inp), prog)
  return build


def _traces(degrees, mult):
  def build():
    side = sum(2 * l + 1 for l in degrees) * mult

    def prog(m):
      out = []
      for shift in (False, True):
        ref = []
        s = 0
        for l in degrees:
          n = 2 * l + 1
          blk = m[s:s + n * mult, s:s + n * mult].reshape(mult, n, mult, n)
          ref.append((jnp.einsum('iaja->ij', blk) - (n * jnp.eye(mult) if shift else 0)).reshape(-1))
          s += n * mult
        out.append(H.eq(f'traces shift={shift}', M.get_traces(m, degrees, mult, shift), jnp.concatenate(ref)))
      return out
    return H.Case('', dict(m=H.Real((side, side))), prog)
  return build


def _combine(L, S, widths, batch):
  def build():
    def prog(x, **w):
      ws = [w[f'w{l}'] for l in range(L + 1)]
      y = M.combine_irreps(x, ws, 'high')
      H.static('list', len(y) == L + 1)
      out = []
      for l in range(L + 1):
        H.static('shape', y[l].shape == (*batch, 2 * l + 1, widths[l]), f'{y[l].shape}')
        ref = sum(x[..., l * l:(l + 1) ** 2, s, None] * ws[l][s] for s in range(S))
        out.append(H.eq(f'degree {l}', y[l], ref))
      return out
    return H.Case('', dict(x=H.Real((*batch, (L + 1) ** 2 + 3, S)), **{f'w{l}': H.Real((S, widths[l])) for l in range(L + 1)}), prog)
  return build


def _pipeline(degrees, mult, max_degree, axis, S=1):
  """features -> combined irreps -> matrix."""
  def build():
    cnt = mults(degrees, max_degree)
    top = min(max_degree, 2 * max(degrees))

    def prog(x, t, **w):
      ws = [w[f'w{l}'] for l in range(top + 1)]
      f = lambda v: M.make_square_matrix(M.combine_irreps(v, ws, 'high'), degrees, mult, max_degree, True, 'high')
      D = O.dmat(t, max(top, 1), axis, True)[:(top + 1) ** 2, :(top + 1) ** 2]
      B = dbig(t, degrees, mult, axis)
      return [H.eq('rotation', f(jnp.einsum('ms,mn->ns', x, D)), B.T @ f(x) @ B)]
    return H.Case('', dict(x=H.Real(((top + 1) ** 2, S)), t=H.Angle(), **{f'w{l}': H.Real((S, cnt.get(l, 0) * mult * mult)) for l in range(top + 1)}), prog)
  return build


def _init(degrees, mult, S, max_degree=None):
  def build():
    cnt = mults(degrees, max_degree)
    top = max(cnt)
    shapes = [(S, cnt.get(l, 0) * mult * mult) for l in range(top + 1)]
    n = sum(a * b for a, b in shapes)
    lv = np.concatenate([np.full(a * b, 1.0 / (2 * l + 1)) for l, (a, b) in enumerate(shapes)])

    def prog(normal, sd):
      def f(v):
        with H.draws(normal=v):
          w = M.init_matrix_irreps_weights(jax.random.PRNGKey(0), S, M.make_dict_irreps_mult(degrees, max_degree), mult, sd)
        H.static('shapes', [x.shape for x in w] == shapes, f'{[x.shape for x in w]}')
        return jnp.concatenate([x.reshape(-1) for x in w])
      J = jax.jacfwd(f)(normal)
      return [H.eq('linear in the draws', f(normal), J @ normal),
              H.eq('covariance', J @ J.T, sd * sd * jnp.diag(jnp.asarray(lv, J.dtype)))]
    return H.Case('', dict(normal=H.Real((n,)), sd=H.Real((), 0.01, 10.0)), prog)
  return build


def _count(n):
  def build():
    def prog(x):
      for degrees in itertools.product(range(5), repeat=n):
        H.static('side lengths', tuple(M.compute_side_lengths(degrees)) == tuple(2 * l + 1 for l in degrees))
        for md in (None, *range(0, 10)):
          got = M.make_dict_irreps_mult(list(degrees), md)
          H.static('multiplicities', {k: v for k, v in got.items() if v} == mults(degrees, md), f'{degrees} {md} {dict(got)}')
        H.static('dimension', sum((2 * l + 1) * c for l, c in mults(degrees, None).items()) == sum(2 * l + 1 for l in degrees) ** 2)
      return [H.eq('', x, x)]
    return H.Case('', dict(x=H.Real(())), prog)
  return build


def cases(tier):
  out = []
  Lm = 2 if tier == 'quick' else 3
  lists = [list(d) for n in (1, 2) for d in itertools.product(range(Lm + 1), repeat=n)] + [[0, 1, 1], [0, 1, 2], [2, 0, 1], [1, 0, 1]]
  i = 0
  for d in lists:
    for mult in (1, 2):
      if mult == 2 and (sum(2 * l + 1 for l in d) > (4 if tier == 'quick' else 6)):
        continue
      for md in range(max(d), 2 * max(d) + 2):
        if tier == 'quick' and md not in (max(d), 2 * max(d), 2 * max(d) + 1) :
          continue
        if tier == 'quick' and md > 4 and d != [2]:  # one such table is enough for every change
          continue
        i += 1
        nm = ''.join(map(str, d))
        out.append((f'square-{nm}-{mult}-{md}', _square(d, mult, md, 'xyz'[i % 3], 0)))
  out.append(('square-extra-01-2-2', _square([0, 1], 1, 2, 'x', 1)))
  for d, mult in [([0], 1), ([0], 3), ([1], 2), ([0, 1], 2), ([2, 1], 1), ([1, 2, 0], 2)]:
    out.append((f'traces-{"".join(map(str, d))}-{mult}', _traces(d, mult)))
  for L, S, b in [(0, 1, ()), (1, 2, (2,)), (2, 3, ()), (3, 1, (2, 1)), (2, 2, (1,))]:
    out.append((f'combine-{L}-{S}', _combine(L, S, [1 + (l + S) % 3 for l in range(L + 1)], b)))
  for d, mult, md in [([0, 1], 1, 2), ([1], 1, 2), ([0, 2], 1, 2), ([1, 1], 1, 1)]:
    for axis in 'xyz':
      out.append((f'pipeline-{"".join(map(str, d))}-{mult}-{md}-{axis}', _pipeline(d, mult, md, axis)))
  for d, mult, S, md in [([0], 1, 1, None), ([1], 1, 2, None), ([0, 1], 1, 1, None), ([0, 1], 2, 1, 1), ([2], 1, 1, None), ([1, 1], 1, 1, 1)]:
    out.append((f'init-{"".join(map(str, d))}-{mult}-{S}-{md}', _init(d, mult, S, md)))
  for n in (1, 2, 3):
    out.append((f'multiplicities-{n}', _count(n)))
  return out
