"""C19: no NaN or infinity in values or first derivatives (single precision)."""
import json
import os
import time

import jax
import jax.numpy as jnp
import numpy as np
import e3x
from sx import harness as H
from sx import ieee
from sx.poly import Unsupported

nn, so3, ops = e3x.nn, e3x.so3, e3x.ops
BIG = 1e18
MAXV = 1e18

INFO = dict(
    functions=['e3x.nn activations', 'e3x.nn.functions (all radial, window, cutoff, switch, damping, mapping functions)', 'e3x.nn.smooth_cutoff', 'e3x.ops.norm', 'e3x.ops.normalize',
               'e3x.ops.normalize_and_return_norm', 'e3x.ops.inverse_softplus', 'e3x.ops.indexed_softmax', 'e3x.nn.basis', 'e3x.nn.ExponentialBasis', 'e3x.so3.spherical_harmonics',
               'e3x.so3.rotation', 'e3x.so3.rotation_euler', 'e3x.so3.alignment_rotation'],
    bounds='every normal float32 number or zero of magnitude at most 1e18 (activations: both signs; distances: non-negative); vectors: components of at most three independent values in the stated ranges; values, forward and reverse first derivatives',
    outside='subnormal inputs; magnitudes above the stated range (squares overflow); second derivatives',
    explanation='The functions are traced in single precision and their jaxpr is evaluated on boxes of float32 numbers with outward rounding; branch and prune discharges boxes on which no output can be NaN or infinite and runs midpoints and corners of the remaining ones on the real code.',
    assumptions=['elementary functions of the backend are within 8 ulps of the exact result (trigonometric functions: 1e-6 absolute)', 'tanh and erf saturate for |x| >= 20 (checked at run time)',
                 'subnormal results may or may not be flushed to zero'])


def leaves(y):
  return [l for l in jax.tree_util.tree_leaves(y)]


def val(f):
  return f


def jvp(f, d=0):
  def g(*a):
    t = [jnp.ones_like(v) if i == d else jnp.zeros_like(v) for i, v in enumerate(a)]
    return jax.jvp(lambda *b: f(*b), a, tuple(t))[1]
  return g


def grad(f, n=1):
  def s(*a):
    # with a nonzero cotangent on every output at once
    y = f(*a)
    return sum(jnp.sum(l) for l in leaves(y))
  return jax.grad(s, argnums=tuple(range(n)))


def pull(f, n, k):
  """reverse derivative of output element k"""
  return jax.grad(lambda *a: jnp.ravel(leaves(f(*a))[0])[k], argnums=tuple(range(n)))


def case(fn, ranges, max_time=40.0, max_boxes=4_000_000, chunk=4096, fork=1 << 20):
  def build():
    def run(name, seed, outdir):
      res = H.Result(name)
      t0 = time.time()
      old = jax.config.jax_enable_x64
      jax.config.update('jax_enable_x64', False)
      try:
        sat = not ieee.saturations()
        if sat:
          raise Unsupported(f'saturation assumption does not hold')
        o = ieee.decide(fn, ranges, max_time=max_time, max_boxes=max_boxes, chunk=chunk, fork=fork)
        res.claims = 1
        res.scalars = res.nontrivial = 1
        res.symbols = len(ranges)
        res.eqns = o.eqns
        res.terms = o.boxes
        res.prims = o.prims
        res.stats = dict(icp=1, icp_boxes=o.boxes, time=o.time)
        if o.violation:
          pt, (how, ys) = o.violation
          res.status = 'violation'
          res.detail = f'input {pt} ({how}) gives {str(ys)[:200]}'
          os.makedirs(outdir, exist_ok=True)
          fnm = ''.join(c if c.isalnum() or c in '-_.' else '_' for c in name)
          res.replay = os.path.join(outdir, f'C19-{fnm}.json')
          with open(res.replay, 'w') as f:
            json.dump(dict(property='C19', case=name, x64=False, point=pt, how=how, outputs=str(ys)), f, indent=1)
        elif o.open or o.undecided:
          res.status = 'inconclusive'
          res.detail = f'{o.open} boxes open, {len(o.undecided)} points undecided: {str(o.undecided[:2] or o.examples)[:200]}'
      except Unsupported as e:
        res.status, res.detail = 'inconclusive', f'Unsupported: {e}'
      finally:
        jax.config.update('jax_enable_x64', old)
      res.wall = time.time() - t0
      return res
    return run
  return build


def feat(f, **kw):
  def g(x):
    return f(jnp.reshape(x, (1, 1, 1)), **kw)[0, 0, 0]
  return g


ACTS = ['celu', 'elu', 'gelu', 'hard_tanh', 'hard_silu', 'leaky_relu', 'mish', 'relu', 'relu6', 'selu', 'shifted_softplus', 'silu', 'soft_sign', 'squareplus', 'bent_identity', 'serf', 'hard_swish', 'swish']


def cases(tier):
  out = []
  deep = tier == 'thorough'
  mt = 300.0 if deep else 40.0

  def add(name, f, ranges, n=None, modes='vjg', **kw):
    n = len(ranges)
    kw.setdefault('max_time', mt)
    if 'v' in modes:
      out.append((f'{name}/value', case(f, ranges, **kw)))
    if 'j' in modes:
      for d in range(n):
        out.append((f'{name}/jvp{d}' if n > 1 else f'{name}/jvp', case(jvp(f, d), ranges, **kw)))
    if 'g' in modes:
      out.append((f'{name}/grad', case(grad(f, n), ranges, **kw)))

  sym = (-BIG, BIG)
  dist = (0.0, BIG)
  for a in ACTS:
    if hasattr(nn, a):
      add(f'activation-{a}', feat(getattr(nn, a)), [sym])
  for al in (0.5, 3.0):
    add(f'activation-celu-{al}', feat(nn.celu, alpha=al), [sym])
    add(f'activation-elu-{al}', feat(nn.elu, alpha=al), [sym])
  add('activation-gelu-exact', feat(nn.gelu, approximate=False), [sym])
  add('activation-leaky_relu-0.3', feat(nn.leaky_relu, negative_slope=0.3), [sym])

  for c in (0.3, 1.0, 5.0, 1e3):
    add(f'smooth_cutoff-{c}', lambda x, c=c: nn.smooth_cutoff(x, c), [dist])
    add(f'cosine_cutoff-{c}', lambda x, c=c: nn.cosine_cutoff(x, c), [dist])
  for x0, x1 in ((0.0, 1.0), (1.0, 3.0), (-2.0, 7.0)):
    add(f'smooth_switch-{x0}-{x1}', lambda x, x0=x0, x1=x1: nn.smooth_switch(x, x0, x1), [sym])
  for g in (0.1, 1.0, 4.0):
    add(f'smooth_damping-{g}', lambda x, g=g: nn.smooth_damping(x, g), [dist])
  for lim in (1.0, 4.0):
    for num in (1, 3):
      for w in ('rectangular_window', 'triangular_window', 'smooth_window'):
        add(f'{w}-{num}-{lim}', lambda x, w=w, num=num, lim=lim: getattr(nn, w)(x, num, limit=lim), [dist])
  for k in ('shifted', 'damped', 'cuspless'):
    add(f'reciprocal_mapping-{k}', lambda x, k=k: nn.reciprocal_mapping(x, kind=k), [dist])
  for cl in (False, True):
    add(f'exponential_mapping-{cl}', lambda x, cl=cl: nn.exponential_mapping(x, 1.5, cuspless=cl), [dist])
  nums = (1, 2, 5) if not deep else (1, 2, 3, 5, 8, 12)
  for fam in ('bernstein', 'chebyshev', 'gaussian', 'fourier'):
    for num in nums:
      for lim in ((1.0, 5.0) if num == 5 or deep else (2.5,)):
        f = getattr(nn, f'basic_{fam}')
        add(f'basic_{fam}-{num}-{lim}', lambda x, f=f, num=num, lim=lim: f(x, num, limit=lim), [dist])
      for k in ('shifted', 'damped', 'cuspless'):
        for w in (False, True):
          if not deep and (num, w) not in ((5, True), (2, False)):
            continue
          f = getattr(nn, f'reciprocal_{fam}')
          add(f'reciprocal_{fam}-{num}-{k}-{w}', lambda x, f=f, num=num, k=k, w=w: f(x, num, kind=k, use_reciprocal_weighting=w), [dist])
      for cl in (False, True):
        for w in (False, True):
          if not deep and (num, w) not in ((5, True), (2, False)):
            continue
          f = getattr(nn, f'exponential_{fam}')
          add(f'exponential_{fam}-{num}-{cl}-{w}', lambda x, f=f, num=num, cl=cl, w=w: f(x, num, gamma=1.5, cuspless=cl, use_exponential_weighting=w), [dist])
  for num, lim in ((1, 1.0), (4, 4.0)):
    add(f'sinc-{num}-{lim}', lambda x, num=num, lim=lim: nn.sinc(x, num, limit=lim), [(0.0, 1e6)])
  add('inverse_softplus', ops.inverse_softplus, [(2 * ieee.TINY, BIG)])

  v3 = [sym] * 3
  vec = lambda *a: jnp.stack(a)
  add('norm', lambda *a: ops.norm(vec(*a), axis=-1), v3)
  add('norm-keepdims', lambda *a: ops.norm(vec(*a), axis=-1, keepdims=True), v3, modes='g')
  add('norm-all', lambda *a: ops.norm(vec(*a)), v3, modes='vg')
  add('norm-rows', lambda x, y: ops.norm(jnp.stack([jnp.stack([x, y]), jnp.stack([y * 0, x * 0])]), axis=-1), [sym] * 2)
  add('normalize', lambda *a: ops.normalize(vec(*a), axis=-1), v3)
  add('normalize_and_return_norm', lambda *a: ops.normalize_and_return_norm(vec(*a), axis=-1), v3)
  for d in range(3):
    out.append((f'normalize/pull{d}', case(pull(lambda *a: ops.normalize(vec(*a), axis=-1), 3, d), v3, max_time=mt)))
  for l in ((1, 2) if not deep else (1, 2, 3, 4)):
    for order in (True, False):
      sh = lambda *a, l=l, order=order: so3.spherical_harmonics(vec(*a), l, cartesian_order=order)
      add(f'spherical_harmonics-{l}-{order}', sh, v3, modes='vj')
      add(f'spherical_harmonics-{l}-{order}', sh, v3 if l == 1 else [(-1e18, 1e18, 1e-17)] * 3, modes='g')
  add('solid_harmonics-2', lambda *a: so3.solid_harmonics(vec(*a), 2), [(-1e6, 1e6)] * 3)
  bs = dict(
      bernstein=lambda *a: nn.basis(vec(*a), max_degree=1, num=4, radial_fn=nn.reciprocal_bernstein, cutoff_fn=lambda x: nn.smooth_cutoff(x, 5.0)),
      chebyshev=lambda *a: nn.basis(vec(*a), max_degree=1, num=3, radial_fn=nn.exponential_chebyshev, cutoff_fn=lambda x: nn.cosine_cutoff(x, 3.0)),
      damped=lambda *a: nn.basis(vec(*a), max_degree=1, num=3, radial_fn=nn.exponential_gaussian, damping_fn=lambda x: nn.smooth_damping(x, 2.0), return_norm=True),
  )
  for k, f in bs.items():
    add(f'basis-{k}', f, v3)
  rot = (-1e6, 1e6)
  add('rotation_euler', lambda *a: so3.rotation_euler(*a), [rot] * 3)
  for k, ax in enumerate(((0.3, -0.4, 1.2), (0.0, 0.0, -2.0), (0.0, 0.0, 0.0), (1e-25, 0.0, 1e-26))):
    add(f'rotation-angle-{k}', lambda w, ax=ax: so3.rotation(jnp.array(ax, jnp.float32), w), [rot])
  for w in (0.0, 1.3, 3.1415927):
    add(f'rotation-axis-{w}', lambda *a, w=w: so3.rotation(vec(*a), jnp.float32(w)), [(-1e18, 1e18, 1e-17)] * 3 if deep else [(-1e4, 1e4, 1e-6)] * 3)
  # reverse derivatives of short vectors (1e-19 < |v| < 1e-17): see known_findings.json
  wide, tiny = (-1e18, 1e18, 1e-17) if deep else (-1e2, 1e2, 1e-6), (-5e-20, 5e-20)
  unit = (-1.0, 1.0)
  for nm, u in (('z', (0.0, 0.0, 1.0)), ('skew', (0.6, -0.48, 0.64)), ('tiny', (0.0, 1e-25, 0.0)), ('zero', (0.0, 0.0, 0.0))):
    f = lambda r, u=u: so3.alignment_rotation(jnp.array(u, jnp.float32), r)
    # every direction: the faces of a cube
    for face in range(6 if deep else 0) or dict(z=(0, 4), skew=(0, 2)).get(nm, (3,)):
      def g(x, y, f=f, face=face):
        v = [x, y]
        v.insert(face // 2, x * 0 + (1.0 if face % 2 else -1.0))
        v = vec(*v)
        return f(v), jax.jacfwd(f)(v), jax.grad(lambda r: f(r).sum())(v)
      out.append((f'alignment_rotation-{nm}-face{face}', case(g, [unit] * 2, max_time=mt if deep else 30.0)))
    h = lambda x, y, f=f: f(vec(x, x * 0, y))
    out.append((f'alignment_rotation-{nm}-tiny', case(lambda *a, h=h: (h(*a), jvp(h, 0)(*a), jvp(h, 1)(*a), grad(h, 2)(*a)), [tiny] * 2, max_time=mt)))
    out.append((f'alignment_rotation-{nm}-plane', case(lambda *a, h=h: (h(*a), jvp(h, 0)(*a), jvp(h, 1)(*a), grad(h, 2)(*a)), [wide] * 2, max_time=mt if deep else 90.0 if nm == 'z' else 30.0)))
  add('alignment_rotation-z-threshold', lambda s: so3.alignment_rotation(jnp.array([0.0, 0.0, 1.0], jnp.float32), vec(s * 0, s * 0.13, -s)), [(1e-19, 1e-17)], modes='g')
  # softmax over fixed index lists, including destinations without entries
  lists = dict(
      sparse=dict(dst_idx=jnp.array([0, 0, 2]), num_segments=4),
      padded=dict(dst_idx=jnp.array([1, 3, 1]), num_segments=3),
      dense=dict(adj_idx=jnp.array([[1, 2, 0], [0, 2, 1]]), where=jnp.array([[True, True, False], [False, False, False]])),
  )
  for k, kw in lists.items():
    shape = (2, 3) if k == 'dense' else (3,)
    sm = lambda *a, kw=kw, shape=shape: ops.indexed_softmax(jnp.resize(vec(*a), shape), **kw)
    add(f'indexed_softmax-{k}', sm, [sym] * 3, modes='vj', fork=1 << 40)
    for j in range(3):
      out.append((f'indexed_softmax-{k}/pull{j}', case(pull(sm, 3, j), [sym] * 3, max_time=mt, fork=1 << 40)))
    smm = lambda x, y, m, n, kw=kw, shape=shape: ops.indexed_softmax(jnp.resize(vec(x, y, y), shape), jnp.resize(vec(m, n, m * 0), shape), **kw)
    for part, a in (('one', lambda x, m, n, smm=smm: smm(x, jnp.float32(0.7), m, n)), ('two', lambda x, m, n, smm=smm: smm(jnp.float32(-1.3), x, m, n))):
      add(f'indexed_softmax-{k}-mask-{part}', a, [(-1e4, 1e4, 1e-4)] + [(0.0, 1.0, 1e-4)] * 2, modes='v', fork=1 << 40)
    gm = lambda m, n, smm=smm: smm(jnp.float32(0.3), jnp.float32(-2.0), m, n)
    add(f'indexed_softmax-{k}-maskgrad', gm, [(0.0, 1.0, 1e-4)] * 2, modes='jg', fork=1 << 40)
  for k in ('max', 'min', 'sum'):
    red = lambda *a, k=k: getattr(ops, f'indexed_{k}')(vec(*a), dst_idx=jnp.array([0, 0, 2]), num_segments=4)
    if k == 'sum':
      add(f'indexed_{k}', red, [sym] * 3)
  eb = nn.ExponentialBasis()
  for fam in ('exponential_bernstein', 'exponential_gaussian', 'exponential_chebyshev', 'exponential_fourier'):
    f = lambda g, d, fam=fam: eb.apply({'params': {'gamma': g}}, jnp.stack([d * 0.6, d * 0, d * 0.8]), max_degree=1, num=3, radial_fn=getattr(nn, fam), cutoff_fn=lambda x: nn.smooth_cutoff(x, 5.0))
    add(f'ExponentialBasis-{fam}', f, [(-1e4, 1e4), (0.0, 1e4, 1e-17)])
  return out
