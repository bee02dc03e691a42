"""C26: arguments outside the documented domain are rejected, all others accepted."""
import inspect
import itertools
import json
import os
import time
import jax
import jax.numpy as jnp
import numpy as np
import e3x
from sx import harness as H
from sx import paths as PX
from sx import solve
from sx.poly import Unsupported

z3 = solve.z3
nn, so3, ops = e3x.nn, e3x.so3, e3x.ops
INFO = dict(
    functions=['the argument checks of e3x.so3.' + n for n in ('spherical_harmonics', 'solid_harmonics', 'clebsch_gordan', 'clebsch_gordan_for_degrees', 'is_traceless_symmetric', 'tensor_to_irreps', 'irreps_to_tensor', 'wigner_d', 'euler_angles_from_rotation')]
    + ['e3x.nn.' + n for n in ('smooth_cutoff', 'cosine_cutoff', 'smooth_switch', 'the Bernstein, Chebyshev, Fourier and Gaussian families', 'basis', 'add', 'rotate', 'Tensor', 'FusedTensor', 'MessagePass', 'SelfAttention', 'MultiHeadAttention')]
    + ['e3x.ops.' + n for n in ('evaluate_derivatives', 'dense_pairwise_indices', 'sparse_pairwise_indices', 'gather_src', 'gather_dst', 'indexed_sum', 'indexed_min', 'indexed_max', 'indexed_softmax', 'sparse_to_dense_indices')],
    bounds='all integers (degrees, numbers of functions, nodes and features) and all real numbers (cutoffs, switch limits), unbounded; shapes of rank up to 4 or 5 with all positive sizes (unbounded); every feasible path of the checks',
    outside='non-finite numbers; sizes 0; higher ranks; string options (covered by C01, C20 and C24); errors raised by jax itself',
    explanation='The real functions run on symbolic numbers (and on stand-ins for arrays with symbolic shapes) until they use them for a computation; on every path z3 refutes that the call was rejected although the documented precondition holds, or accepted although it does not. One witness of every accepting path is passed to the real function with real arrays.',
    assumptions=['a path that leaves the checks without ValueError or TypeError of the code accepts its arguments (confirmed with one witness per path)'])


class Used(Exception):
  """The code uses a symbolic number as a concrete one: the checks are over."""


class Arg(PX.Sym):
  def __index__(self):
    raise Used
  __int__ = __float__ = __index__

  def __rtruediv__(self, o):
    raise Used

  def _cmp(self, o, f, inf):
    if len(PX.CUR.log) > 40:  # a loop over the values of the argument
      raise Used
    return PX.Sym._cmp(self, o, f, inf)

  def _bin(self, o, f, swap=False):
    r = PX.Sym._bin(self, o, f, swap)
    return Arg(r.e, r.kind) if isinstance(r, PX.Sym) else r


class Fake:
  """Stand-in for an array of which only the shape is known."""

  def __init__(self, shape, dtype='float32'):
    self.shape = tuple(shape)
    self.ndim = len(self.shape)
    self.dtype = jnp.dtype(dtype)

  def __getattr__(self, name):
    raise Used(name)


def _stop():
  raise Used


def _unwrapped():
  """Undo jit wrappers inside e3x while exploring (symbolic numbers are no jax values)."""
  import contextlib
  import sys

  @contextlib.contextmanager
  def cm():
    saved = []
    for n, m in list(sys.modules.items()):
      if n == 'e3x' or n.startswith('e3x.'):
        for k, v in list(vars(m).items()):
          if type(v).__name__ in ('PjitFunction', 'CompiledFunction') and hasattr(v, '__wrapped__'):
            saved.append((m, k, v))
            setattr(m, k, v.__wrapped__)
          elif k.startswith('_generate_') and callable(v):
            saved.append((m, k, v))
            setattr(m, k, lambda *a, _v=v, **kw: _stop() if any(isinstance(x, PX.Sym) for x in (*a, *kw.values())) else _v(*a, **kw))
    try:
      yield
    finally:
      for m, k, v in saved:
        setattr(m, k, v)
  return cm()


def _raised_by(e):
  """Was the exception raised by a raise statement of e3x itself?"""
  tb, last = e.__traceback__, None
  while tb is not None:
    last = tb
    tb = tb.tb_next
  f = last.tb_frame.f_code.co_filename if last else ''
  return f.startswith(os.path.dirname(os.path.abspath(e3x.__file__)))


def _check(names, base, valid, call, real, errs=(ValueError,), small=6, kind=None, free=()):
  """names: variables; valid/base: dict -> z3; call(dict of Arg); real(dict of numbers)."""
  def build():
    def run(name, seed, outdir):
      res = H.Result(name)
      solve.STATS = solve.Stats()
      t0 = time.time()
      V = {n: (z3.Real(n) if n in (kind or ()) else z3.Int(n)) for n in names}
      res.symbols = len(V)
      ok = valid(V)
      b = base(V) if base else z3.BoolVal(True)
      decided = 0

      def conc(m):
        out = {}
        for n, v in V.items():
          x = m.eval(v, model_completion=True)
          out[n] = x.as_long() if z3.is_int_value(x) else float(x.as_fraction())
        return out

      def outcome(vals):
        try:
          real(vals)
          return 'accepted', ''
        except errs as e:
          return 'rejected', f'{type(e).__name__}: {e}'[:120]
        except Exception as e:
          return 'failed', f'{type(e).__name__}: {e}'[:120]

      def report(vals, got, det):
        res.status = 'violation'
        want = 'accepted' if got != 'accepted' else 'rejected'
        res.detail = f'{vals}: {got} {det}, expected to be {want}'
        os.makedirs(outdir, exist_ok=True)
        res.replay = os.path.join(outdir, f'C26-{name}.json')
        with open(res.replay, 'w') as f:
          json.dump(dict(property='C26', case=name, inputs=vals, failures=[res.detail]), f, indent=1)

      def find(*cs):
        """A model of the constraints, small values preferred; None if impossible."""
        lim = [z3.And(v <= small, v >= -small) for v in V.values()]
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*cs)
        s.push()
        s.add(*lim)
        if solve.check(s) == 'sat':
          return conc(s.model()), True
        s.pop()
        r = solve.check(s)
        if r == 'sat':
          return conc(s.model()), False
        if r != 'unsat':
          raise Unsupported('solver gave no answer')
        return None, False
      try:
        with _unwrapped():
          ps = PX.explore(lambda: call({n: Arg(v, 'real' if n in (kind or ()) else 'int') for n, v in V.items()}), base=b)
        for pc, (k, v) in ps:
          rejected = k == 'raise' and isinstance(v, errs) and _raised_by(v)
          res.claims += 1
          res.scalars += 1
          res.nontrivial += 1
          vals, _ = find(pc, ok if rejected else z3.Not(ok))
          if vals is not None:
            got, det = outcome(vals)
            good = (got == 'rejected') if not rejected else (got == 'accepted')
            if not good:
              report(vals, got, det)
              break
            # the stand-in did not get as far as the real arguments
            res.claims -= 1
            res.detail = 'entry point not usable with a stand-in on some path: not decided there'
            continue
          decided += 1
          if not rejected:  # a real call must succeed
            w, sm = find(pc)
            if w is not None and sm:
              got, det = outcome(w)
              if got != 'accepted':
                report(w, got, det)
                break
        # documented boundary: at least one accepted and one rejected real call
        if res.status == 'ok':
          for c, want in ((ok, 'accepted'), (z3.Not(ok), 'rejected')):
            w, sm = find(b, c)
            if w is not None and sm:
              got, det = outcome(w)
              if got != want:
                report(w, got, det)
                break
        res.eqns += len(ps)
      except Unsupported as e:
        res.status, res.detail = 'inconclusive', str(e)
      res.stats = solve.STATS.as_dict()
      res.wall = time.time() - t0
      return res
    return run
  return build


def _arr(shape):
  return jnp.full(tuple(int(s) for s in shape), 0.5)


def _num(f, *a):
  return jax.eval_shape(lambda: f(*a))


def _shapes(ranks, valid, call, errs=(ValueError,), dtypes=None, base=None, small=4):
  """ranks: dict array name -> rank; call(**arrays)."""
  names = [f'{k}{i}' for k, r in ranks.items() for i in range(r)]
  dt = dtypes or {}

  def mk(d, real):
    out = {}
    for k, r in ranks.items():
      shp = tuple(d[f'{k}{i}'] for i in range(r))
      if real:
        out[k] = jnp.zeros(shp, dt.get(k, 'float32')) if dt.get(k, 'float32') != 'float32' else _arr(shp)
      else:
        out[k] = Fake(shp, dt.get(k, 'float32'))
    return out

  def vv(V):
    return {k: [V[f'{k}{i}'] for i in range(r)] for k, r in ranks.items()}
  pos = lambda V: z3.And([z3.BoolVal(True)] + [v >= 1 for v in V.values()] + ([base(**vv(V))] if base else []))
  return _check(names, pos, lambda V: valid(**vv(V)), lambda d: call(**mk(d, False)), lambda d: call(**mk(d, True)), errs=errs, small=small)


def _all(*c):
  return z3.And([z3.BoolVal(True), *c])


def _same(a, b):
  return z3.BoolVal(False) if len(a) != len(b) else _all(*[x == y for x, y in zip(a, b)])


def cases(tier):
  out = []
  X = jnp.array([0.25, 0.5])
  r3 = jnp.array([[0.1, 0.2, 0.3]])
  add = lambda n, *a, **k: out.append((n, _check(*a, **k)))
  # real parameters
  for f in ('smooth_cutoff', 'cosine_cutoff'):
    g = getattr(nn, f)
    call = lambda d, g=g: g(X, d['cutoff'])
    add(f, ['cutoff'], None, lambda V: V['cutoff'] > 0, call, call, kind=('cutoff',))
  call = lambda d: nn.smooth_switch(X, d['x0'], d['x1'])
  add('smooth_switch', ['x0', 'x1'], None, lambda V: V['x1'] > V['x0'], call, call, kind=('x0', 'x1'))
  # numbers of functions
  for fam in ('bernstein', 'chebyshev', 'fourier', 'gaussian'):
    for knd in ('basic', 'reciprocal', 'exponential'):
      g = getattr(nn, f'{knd}_{fam}')
      call = lambda d, g=g: g(X, d['num'])
      add(f'{knd}_{fam}', ['num'], None, lambda V: V['num'] >= 1, call, call)
  # degrees
  for norm in ('racah', 'orthonormal'):
    call = lambda d, norm=norm: so3.spherical_harmonics(r3, d['L'], normalization=norm)
    add(f'spherical_harmonics-{norm}', ['L'], None, lambda V: V['L'] >= 0, call, call, small=2)
  call = lambda d: so3.solid_harmonics(r3, d['L'])
  add('solid_harmonics', ['L'], None, lambda V: V['L'] >= 0, call, call, small=2)
  call = lambda d: so3.clebsch_gordan(d['a'], d['b'], d['c'])
  add('clebsch_gordan', ['a', 'b', 'c'], None, lambda V: z3.And(V['a'] >= 0, V['b'] >= 0, V['c'] >= 0), call, call, small=2)
  call = lambda d: so3.clebsch_gordan_for_degrees(d['a'], d['b'], d['c'])
  add('clebsch_gordan_for_degrees', ['a', 'b', 'c'], None, lambda V: z3.And(V['a'] >= 0, V['b'] >= 0, V['c'] >= 0), call, call, small=2)
  call = lambda d: nn.basis(r3, max_degree=d['L'], num=2, radial_fn=nn.basic_gaussian)
  add('basis-degree', ['L'], None, lambda V: V['L'] >= 0, call, call, small=2)
  call = lambda d: nn.basis(r3, max_degree=1, num=d['num'], radial_fn=nn.basic_gaussian)
  add('basis-num', ['num'], None, lambda V: V['num'] >= 1, call, call, small=2)
  # derivatives, pairs
  call = lambda d: ops.evaluate_derivatives(jnp.sin, X, max_order=d['n'])
  add('evaluate_derivatives', ['n'], None, lambda V: V['n'] >= 0, call, call, small=3)
  for ms in (True, False):
    for f in ('dense_pairwise_indices', 'sparse_pairwise_indices'):
      call = lambda d, f=f, ms=ms: getattr(ops, f)(d['num'], mask_self=ms)
      add(f'{f}-{int(ms)}', ['num'], None, lambda V: V['num'] >= 1, call, call)
  # layers
  for nm, T in (('tensor', nn.Tensor), ('fusedtensor', nn.FusedTensor)):
    for l1, l2 in ((0, 1), (1, 1), (2, 1), (1, 2)):
      x, y = jnp.zeros((1, (l1 + 1)**2, 2)), jnp.zeros((2, (l2 + 1)**2, 2))
      add(f'{nm}-max_degree-{l1}{l2}', ['L'], lambda V: V['L'] >= 0, lambda V, l1=l1, l2=l2: V['L'] <= l1 + l2,
          lambda d, T=T, x=x, y=y: T(max_degree=d['L']).apply({}, x, y),
          lambda d, T=T, x=x, y=y: jax.eval_shape(lambda: T(max_degree=d['L']).init(jax.random.PRNGKey(0), x, y)))
  # feature counts and heads
  qx = jnp.zeros((2, 1, 1, 4))
  adj = jnp.array([[1], [0]])
  for heads in (1, 2, 3, 4, 5):
    for nm, T, args in (('self', nn.SelfAttention, (qx,)), ('multi', nn.MultiHeadAttention, (qx, qx))):
      add(f'{nm}-heads-{heads}', ['q'], lambda V: V['q'] >= 1, lambda V, heads=heads: V['q'] % heads == 0,
          lambda d, T=T, heads=heads, args=args: T(max_degree=0, num_heads=heads, qkv_features=d['q'], include_pseudotensors=False, use_relative_positional_encoding_qk=False, use_relative_positional_encoding_v=False).apply({}, *args, adj_idx=adj),
          lambda d, T=T, heads=heads, args=args: jax.eval_shape(lambda: T(max_degree=0, num_heads=heads, qkv_features=d['q'], include_pseudotensors=False, use_relative_positional_encoding_qk=False, use_relative_positional_encoding_v=False).init(jax.random.PRNGKey(0), *args, adj_idx=adj)))
  # shapes
  sh = lambda n, *a, **k: out.append((n, _shapes(*a, **k)))
  for n in (1, 2, 3):
    sh(f'spherical_harmonics-shape-{n}', dict(r=n), lambda r: r[-1] == 3, lambda r: so3.spherical_harmonics(r, 1))
    sh(f'solid_harmonics-shape-{n}', dict(r=n), lambda r: r[-1] == 3, lambda r: so3.solid_harmonics(r, 1))
    sh(f'basis-shape-{n}', dict(r=n), lambda r: r[-1] == 3, lambda r: nn.basis(r, max_degree=1, num=2, radial_fn=nn.basic_gaussian))
  for n in (1, 2, 3, 4):
    rv = lambda rot: _all(rot[-1] == 3, rot[-2] == 3) if len(rot) > 1 else z3.BoolVal(False)
    sh(f'wigner_d-shape-{n}', dict(rot=n), rv, lambda rot: so3.wigner_d(rot, 1))
    sh(f'euler-shape-{n}', dict(rot=n), rv, lambda rot: so3.euler_angles_from_rotation(rot))
  for l in (0, 1, 2, 3):
    for n in (1, 2, 3, 4):
      tv = lambda x, l=l: x[-1] == 1 if l == 0 else (_all(*[s == 3 for s in x[-l:]]) if len(x) >= l else z3.BoolVal(False))
      sh(f'tensor_to_irreps-shape-{l}-{n}', dict(x=n), tv, lambda x, l=l: so3.tensor_to_irreps(x, l))
      sh(f'is_traceless_symmetric-shape-{l}-{n}', dict(x=n), tv, lambda x, l=l: so3.is_traceless_symmetric(x, l))
    for n in (1, 2, 3):
      sh(f'irreps_to_tensor-shape-{l}-{n}', dict(x=n), lambda x, l=l: x[-1] == 2 * l + 1, lambda x, l=l: so3.irreps_to_tensor(x, l), small=8)
  # graphs
  for a, b in itertools.product((1, 2, 3), (1, 2, 3)):
    sh(f'sparse_to_dense-{a}{b}', dict(dst=a, src=b), lambda dst, src: _same(dst, src),
       lambda dst, src: ops.sparse_to_dense_indices(dst, src), dtypes=dict(dst='int32', src='int32'))
  for n, m in itertools.product((2, 3), (1, 2, 3, 4)):
    sh(f'gather_src-dense-{n}{m}', dict(adj=n, x=m), lambda adj, x: _same(adj[:-2], x[:len(adj) - 2]) if len(x) >= len(adj) - 1 else z3.BoolVal(False),
       lambda adj, x: ops.gather_src(x, adj_idx=adj), dtypes=dict(adj='int32'))
  for n, m in itertools.product((1, 2, 3), (1, 2, 3, 4)):
    sv = lambda src, x: _same(src[:-1], x[:len(src) - 1]) if len(x) >= len(src) else z3.BoolVal(False)
    sh(f'gather_src-sparse-{n}{m}', dict(src=n, x=m), sv, lambda src, x: ops.gather_src(x, src_idx=src), dtypes=dict(src='int32'))
    sh(f'gather_dst-sparse-{n}{m}', dict(src=n, x=m), sv, lambda src, x: ops.gather_dst(x, dst_idx=src), dtypes=dict(src='int32'))
    for fn in ('indexed_sum', 'indexed_min', 'indexed_max'):
      pv = lambda idx, x: _same(idx, x[:len(idx)]) if len(x) >= len(idx) else z3.BoolVal(False)
      sh(f'{fn}-sparse-{n}{m}', dict(idx=n, x=m), pv, lambda idx, x, fn=fn: getattr(ops, fn)(x, dst_idx=idx, num_segments=2), dtypes=dict(idx='int32'))
      if n > 1:
        sh(f'{fn}-dense-{n}{m}', dict(idx=n, x=m), pv,
           lambda idx, x, fn=fn: getattr(ops, fn)(x, adj_idx=idx, where=(idx < 2) if not isinstance(idx, Fake) else idx), dtypes=dict(idx='int32'))
  for n, m in itertools.product((1, 2, 3), (1, 2, 3)):
    sh(f'softmax-mask-{n}{m}', dict(x=n, m=m), lambda x, m: _same(x, m),
       lambda x, m: ops.indexed_softmax(x, m, dst_idx=jnp.zeros(x.shape[:1], 'int32') if not isinstance(x, Fake) else Fake(x.shape[:1], 'int32'), num_segments=1))
  # leading axes of queries, keys and values
  ini = lambda m, *a, **k: jax.eval_shape(lambda *a: m.init(jax.random.PRNGKey(0), *a, **k), *a)
  for n, m in ((4, 4), (5, 5), (6, 6), (4, 5), (5, 4)):
    def att(q, k):
      M = nn.MultiHeadAttention(max_degree=0, num_heads=1, use_relative_positional_encoding_qk=False, use_relative_positional_encoding_v=False)
      if isinstance(q, Fake):
        return M.apply({}, q, k, adj_idx=adj)
      b = q.shape[:-4]
      return ini(M, q, k, adj_idx=jnp.zeros((*b, q.shape[-4], 1), 'int32'))
    sh(f'attention-{n}{m}', dict(q=n, k=m), lambda q, k: _same(q[:-4], k[:-4]), att, base=lambda q, k: _all(*[z3.And(v[-3] == 1, v[-2] == 1, v[-1] == 2) for v in (q, k)]))
  # features
  def feat(x):
    return _all(z3.Or(x[-3] == 1, x[-3] == 2), z3.Or([x[-2] == (k + 1)**2 for k in range(4)])) if len(x) >= 3 else z3.BoolVal(False)
  for n, m in ((3, 3), (4, 4), (4, 3), (3, 4), (2, 2), (2, 3)):
    sh(f'add-{n}{m}', dict(x=n, y=m), lambda x, y: z3.BoolVal(False) if min(len(x), len(y)) < 3 else _all(feat(x), feat(y), x[-1] == y[-1], _same(x[:-3], y[:-3])),
       lambda x, y: nn.add(x, y), base=lambda x, y: _all(*[v[-2] <= 16 for v in (x, y) if len(v) >= 2]), small=9)
  for n, m in ((3, 2), (3, 3), (4, 2), (4, 3), (4, 4), (5, 4)):
    sh(f'rotate-{n}{m}', dict(x=n, d=m), lambda x, d: _all(feat(x), d[-1] == x[-2], d[-2] == x[-2], z3.BoolVal(True) if len(d) == 2 else _same(x[:-3], d[:-2])),
       lambda x, d: nn.rotate(x, d), base=lambda x, d: x[-2] <= 16, small=9)
  return out
