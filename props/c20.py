"""C20: initializers of tensor product kernels."""
import math
import jax
import jax.numpy as jnp
import numpy as np
import e3x
from sx import harness as H

INFO = dict(
    functions=['e3x.nn.initializers.tensor_variance_scaling', 'tensor_{glorot,xavier,lecun,he,kaiming}_{uniform,normal}', 'fused_tensor_normal', 'fused_tensor_uniform', '_random_array', '_compute_tensor_fans_and_mask', 'e3x.nn.Tensor.init', 'e3x.nn.FusedTensor.init'],
    bounds='all values of the random draws (uniform draws in their interval, truncated draws in (-2, 2), all real normal draws); all positive scales in [0.01, 100]; all parities and maximum degrees up to 2 (quick) / 3 (thorough) for each of the three factors, 1..3 features; all modes and distributions; fused kernels with arbitrary symbolic per-entry scales and masks',
    outside='complex dtypes; the statistics of jax.random itself (draws are the symbolic inputs); larger degrees',
    explanation='jax.random draws are replaced by symbolic inputs. The returned kernel must be exactly zero for forbidden couplings, and its square must be draw^2 * scale / fan (divided by the variance of the base distribution) with the sign of the draw elsewhere, with the fans counted independently from the triangle and parity rules.',
    assumptions=['distinct entries of one draw are independent', 'parameters are initialised with one draw each'])

# variance of the standard normal truncated to (-2, 2)
_PHI2 = math.exp(-2.0) / math.sqrt(2 * math.pi)
TVAR = 1 - 4 * _PHI2 / math.erf(2 / math.sqrt(2))
BASE = dict(uniform=1 / 3, truncated_normal=TVAR, normal=1.0)


def _parity(num, p, l):
  return p if num == 2 else l % 2


def fans(shape):
  """-> mask, fan_in, fan_out (numpy, full kernel shape without features)."""
  s = shape[:-1]
  mask = np.zeros(s)
  for i in np.ndindex(*s):
    p1, l1, p2, l2, p3, l3 = i
    par = (_parity(s[0], p1, l1) + _parity(s[2], p2, l2) + _parity(s[4], p3, l3)) % 2 == 0
    mask[i] = par and max(l1, l2, l3) * 2 <= l1 + l2 + l3
  fi = np.broadcast_to(mask.sum(axis=(0, 1, 2, 3), keepdims=True), s)
  fo = np.broadcast_to(mask.sum(axis=(4, 5), keepdims=True), s)
  return mask, fi, fo


def _pool(dist, n):
  if dist == 'uniform':
    return dict(uniform=H.Real((n,), 0.0, 1.0))
  if dist == 'normal':
    return dict(normal=H.Real((n,), -6.0, 6.0))
  return dict(truncated=H.Real((n,), -2.0, 2.0))


def _draw(dist, pool, shape):
  d = pool[:int(np.prod(shape))].reshape(shape)
  return 2 * d - 1 if dist == 'uniform' else d


def _claims(w, draw, mask, var, dist):
  """w = sqrt(var / Var[base]) * draw where mask, else 0."""
  m = np.asarray(mask, bool)
  z = jnp.zeros_like(w)
  return [H.eq('forbidden couplings', jnp.where(m, z, w), z),
          H.eq('variance', w * w, jnp.where(m, draw * draw * var / BASE[dist], z)),
          H.le('sign', z, jnp.where(m, w * draw, z))]


def _variance(shape, mode, scale):
  mask, fi, fo = fans(shape)
  den = dict(fan_in=fi, fan_out=fo, fan_avg=(fi + fo) / 2)[mode]
  return mask[..., None] * np.ones(shape[-1]), scale / jnp.asarray(np.where(mask > 0, den, 1.0))[..., None]


def _scaling(shape, mode, dist):
  def build():
    n = int(np.prod(shape))

    def prog(scale, **pool):
      init = e3x.nn.initializers.tensor_variance_scaling(scale, mode, dist)
      with H.draws(**pool) as pos:
        w = init(jax.random.PRNGKey(0), shape)
      H.static('shape', w.shape == tuple(shape), f'{w.shape}')
      H.static('one draw per entry', sum(pos.values()) == n, str(pos))
      mask, var = _variance(shape, mode, scale)
      return _claims(w, _draw(dist, list(pool.values())[0], shape), mask, var, dist)
    return H.Case('', dict(scale=H.Real((), 0.01, 100.0), **_pool(dist, n)), prog)
  return build


NAMED = {}
for _n, (_s, _m) in dict(glorot=(1.0, 'fan_avg'), xavier=(1.0, 'fan_avg'), lecun=(1.0, 'fan_in'), he=(2.0, 'fan_in'), kaiming=(2.0, 'fan_in')).items():
  NAMED[f'tensor_{_n}_uniform'] = (_s, _m, 'uniform')
  NAMED[f'tensor_{_n}_normal'] = (_s, _m, 'truncated_normal')


def _named(name, shape, dtype=None):
  def build():
    s, m, dist = NAMED[name]
    n = int(np.prod(shape))

    def prog(**pool):
      f = getattr(e3x.nn.initializers, name)
      with H.draws(**pool):
        w = f()(jax.random.PRNGKey(0), shape)
      for dt in (jnp.float32, jnp.float16, jnp.bfloat16):
        for a in (jax.eval_shape(lambda k: f(dtype=dt)(k, shape), jax.random.PRNGKey(0)), jax.eval_shape(lambda k: f()(k, shape, dt), jax.random.PRNGKey(0))):
          H.static('dtype', a.dtype == dt and a.shape == tuple(shape), f'{a}')
      mask, var = _variance(shape, m, s)
      return _claims(w, _draw(dist, list(pool.values())[0], shape), mask, var, dist)
    return H.Case('', _pool(dist, n), prog)
  return build


def _fused(name, dist, shape, vec, msk):
  """fused_tensor_*: per-entry (or per-degree) scale and mask."""
  def build():
    n = int(np.prod(shape))
    sshape = {'': (), 'l': (shape[0], 1), 'lf': shape}[vec]
    mshape = {'l': (shape[0], 1), 'lf': shape}.get(msk)

    def prog(scale, mask=None, **pool):
      f = getattr(e3x.nn.initializers, name)
      kw = {} if msk is None else dict(mask=mask)
      with H.draws(**pool) as pos:
        w = f(scale, **kw)(jax.random.PRNGKey(0), shape)
      H.static('shape', w.shape == tuple(shape), f'{w.shape}')
      H.static('one draw per entry', sum(pos.values()) == n, str(pos))
      m = jnp.ones(shape, bool) if msk is None else jnp.broadcast_to(mask, shape)
      draw = _draw(dist, list(pool.values())[0], shape)
      z = jnp.zeros_like(w)
      return [H.eq('masked', jnp.where(m, z, w), z),
              H.eq('variance', w * w, jnp.where(m, draw * draw * jnp.broadcast_to(scale, shape) / BASE[dist], z)),
              H.le('sign', z, w * draw)]
    inp = dict(scale=H.Real(sshape, 0.01, 100.0), **_pool(dist, n))
    if msk is not None:
      inp['mask'] = H.Bool(mshape)
    return H.Case('', inp, prog)
  return build


def _shape_x(P, L, F):
  return (P, (L + 1) ** 2, F)


def _tensor_layer(L1, P1, L2, P2, L3, pseudo, F=1):
  """initial kernel of the Tensor layer."""
  def build():
    mod = e3x.nn.Tensor(max_degree=L3, include_pseudotensors=pseudo)
    x1, x2 = np.zeros(_shape_x(P1, L1, F), np.float32), np.zeros(_shape_x(P2, L2, F), np.float32)
    P3 = 2 if (pseudo and (P1 == 2 or P2 == 2 or (L1 and L2 and L3))) else 1
    sh = jax.eval_shape(lambda: mod.init(jax.random.PRNGKey(0), x1, x2))
    shape = sh['params']['kernel'].shape
    n = int(np.prod(shape))

    def prog(truncated):
      with H.draws(truncated=truncated):
        p = mod.init(jax.random.PRNGKey(0), jnp.asarray(x1), jnp.asarray(x2))
      w = p['params']['kernel']
      H.static('kernel shape', w.shape == (P1, L1 + 1, P2, L2 + 1, P3, L3 + 1, F), f'{w.shape}')
      mask, var = _variance(w.shape, 'fan_in', 1.0)
      return _claims(w, truncated.reshape(w.shape), mask, var, 'truncated_normal')
    return H.Case('', dict(truncated=H.Real((n,), -2.0, 2.0)), prog)
  return build


def _fused_layer(L1, P1, L2, P2, L3, pseudo, F=2):
  """initial kernels of the FusedTensor layer."""
  def build():
    mod = e3x.nn.FusedTensor(max_degree=L3, include_pseudotensors=pseudo)
    x1, x2 = np.zeros(_shape_x(P1, L1, F), np.float32), np.zeros(_shape_x(P2, L2, F), np.float32)
    sh = jax.eval_shape(lambda: mod.init(jax.random.PRNGKey(0), x1, x2))['params']
    n = sum(int(np.prod(v.shape)) for v in sh.values())

    KS = ('e1', 'o1', 'e2', 'o2', 'eee', 'ooe', 'eoo', 'oeo')
    var = []
    for k in KS:
      L = L1 if '1' in k else L2 if '2' in k else L3
      l = np.arange(L + 1)
      if len(k) == 2:
        P = P1 if '1' in k else P2
        # without a second parity channel even/odd features have even/odd degree
        mask = np.ones(L + 1) if P == 2 else (l % 2 == (k[0] == 'o'))
        rows = 2 * math.ceil(max(L1, L2, L3) / 2) + 1
        v = np.full(L + 1, math.sqrt(rows) / min(L1 + 1, L2 + 1))
      else:
        mask, v = np.ones(L + 1), np.ones(L + 1)
        if P1 == P2 == 1:
          if k[2] == 'o':  # no pseudoscalars in the output
            mask = l > 0
          if L1 and L2:
            v = np.where(l > 0, 2.0, 1.0)
        elif P1 == P2 == 2:
          v = v / 2
      var.append(np.repeat(mask * v, F))
    var = np.concatenate(var)

    def prog(truncated):
      def f(t):
        with H.draws(truncated=t):
          p = mod.init(jax.random.PRNGKey(0), jnp.asarray(x1), jnp.asarray(x2))['params']
        H.static('kernels', sorted(p) == sorted('kernel_' + k for k in KS), str(sorted(p)))
        for k in KS:
          L = L1 if '1' in k else L2 if '2' in k else L3
          H.static('kernel shape', p['kernel_' + k].shape == (L + 1, F), k)
        return jnp.concatenate([p['kernel_' + k].reshape(-1) for k in KS])
      # all kernels are a linear map of the draws: their covariance is A A^T
      J = jax.jacfwd(f)(truncated)
      return [H.eq('linear in the draws', f(truncated), J @ truncated),
              H.eq('covariance', J @ J.T * TVAR, jnp.diag(jnp.asarray(var, J.dtype)))]
    return H.Case('', dict(truncated=H.Real((n,), -2.0, 2.0)), prog)
  return build


def cases(tier):
  out = []
  N = 2 if tier == 'quick' else 3
  shapes = []
  for L1 in range(N + 1):
    for L2 in range(N + 1):
      for L3 in range(N + 1):
        for P in range(8):
          P1, P2, P3 = 1 + P % 2, 1 + P // 2 % 2, 1 + P // 4
          shapes.append((P1, L1 + 1, P2, L2 + 1, P3, L3 + 1, 1))
  modes = ('fan_in', 'fan_out', 'fan_avg')
  dists = ('uniform', 'normal', 'truncated_normal')
  combos = [(m, d) for m in modes for d in dists]
  for i, s in enumerate(shapes):
    use = combos if (s[1:6:2] in ((2, 3, 2), (3, 3, 3)) and s[0] == 2 or tier != 'quick') else [combos[(i * 5 + k) % 9] for k in (0, 4)]
    if i % 7 == 0:
      s = s[:-1] + (2,)
    for m, d in use:
      out.append((f'scaling-{"".join(map(str, s))}-{m}-{d}', _scaling(s, m, d)))
  for i, name in enumerate(NAMED):
    for s in [(2, 3, 1, 2, 2, 3, 1), (1, 2, 2, 3, 1, 2, 2), (1, 3, 1, 3, 2, 3, 1)]:
      out.append((f'{name}-{"".join(map(str, s))}', _named(name, s)))
  for name, dist in (('fused_tensor_normal', 'truncated_normal'), ('fused_tensor_uniform', 'uniform')):
    for shape in [(1, 1), (2, 2), (4, 3)]:
      for vec in ('', 'l', 'lf'):
        for msk in (None, 'l', 'lf'):
          out.append((f'{name}-{shape[0]}{shape[1]}-{vec}-{msk}', _fused(name, dist, shape, vec, msk)))
  for i, (L1, L2, L3) in enumerate([(0, 0, 0), (1, 1, 1), (1, 2, 1), (2, 1, 2), (2, 2, 2), (0, 2, 2)]):
    for P1 in (1, 2):
      for P2 in (1, 2):
        for pseudo in (False, True):
          out.append((f'Tensor.init-{L1}{P1}-{L2}{P2}-{L3}-{int(pseudo)}', _tensor_layer(L1, P1, L2, P2, L3, pseudo)))
          out.append((f'FusedTensor.init-{L1}{P1}-{L2}{P2}-{L3}-{int(pseudo)}', _fused_layer(L1, P1, L2, P2, L3, pseudo)))
  return out
