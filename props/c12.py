"""C12: equivariant activations."""
import math
import jax
import jax.numpy as jnp
import numpy as np
import e3x
from sx import harness as H
from sx import oracle as O

INFO = dict(
    functions=['e3x.nn.' + n for n in ('relu', 'leaky_relu', 'elu', 'selu', 'celu', 'silu/swish', 'gelu', 'mish', 'serf', 'shifted_softplus', 'hard_tanh', 'soft_sign', 'relu6', 'hard_silu/hard_swish', 'bent_identity')],
    bounds='all feature values with scalars in [-1e6, 1e6] (split at 0, around 0 down to exactly 0, +-1, +-3, 6, +-30); all rotations about x and y; max_degree 0..2, both feature types, 2 channels, batch dimension 2; symbolic alpha / negative_slope',
    outside='scalars beyond 1e6 in magnitude (see C19); float rounding',
    explanation='The output is compared with (documented scalar function / scalar) times the features; equivariance, independence of channels and of batch entries as identities over all inputs.',
    assumptions=['real arithmetic; erf is uninterpreted (same argument required)'])

SP = lambda x: jnp.where(x > 0, x + jnp.log(1 + jnp.exp(-x)), jnp.log(1 + jnp.exp(x)))
nn = e3x.nn


def _mish(x):
  e = jnp.exp(jnp.where(x > 0, -x, x))
  return jnp.where(x > 0, x * (1 + 2 * e) / (1 + 2 * e + 2 * e * e), x * (2 * e + e * e) / (2 + 2 * e + e * e))


# name -> (function(x, par), scalar reference(x, par), gate at 0 (par), parameter default or None)
ACTS = {
    'relu': (lambda x, a: nn.relu(x), lambda x, a: jnp.where(x > 0, x, 0.0), None, None),
    'leaky_relu': (lambda x, a: nn.leaky_relu(x, negative_slope=a), lambda x, a: jnp.where(x >= 0, x, a * x), lambda s, a: jnp.where(s >= 0, 1.0, a), 1e-2),
    'elu': (lambda x, a: nn.elu(x, alpha=a), lambda x, a: jnp.where(x > 0, x, a * (jnp.exp(x) - 1)), lambda s, a: jnp.where(s > 0, 1.0, a), 1.0),
    'selu': (lambda x, a: nn.selu(x), lambda x, a: 1.0507009873554804934193349852946 * jnp.where(x > 0, x, 1.6732632423543772848170429916717 * (jnp.exp(x) - 1)), lambda s, a: 1.0507009873554805 * jnp.where(s > 0, 1.0, 1.6732632423543772), None),
    'celu': (lambda x, a: nn.celu(x, alpha=a), lambda x, a: jnp.where(x > 0, x, a * (jnp.exp(x / a) - 1)), lambda s, a: jnp.full_like(s, 1.0), 1.0),
    'silu': (lambda x, a: nn.silu(x), lambda x, a: x / (1 + jnp.exp(-x)), lambda s, a: jnp.full_like(s, 0.5), None),
    'swish': (lambda x, a: nn.swish(x), lambda x, a: x / (1 + jnp.exp(-x)), lambda s, a: jnp.full_like(s, 0.5), None),
    'gelu': (lambda x, a: nn.gelu(x), lambda x, a: x / 2 * (1 + jnp.tanh(math.sqrt(2 / math.pi) * (x + 0.044715 * x ** 3))), lambda s, a: jnp.full_like(s, 0.5), None),
    'gelu-exact': (lambda x, a: nn.gelu(x, approximate=False), lambda x, a: x / 2 * (1 + jax.lax.erf(x / math.sqrt(2))), lambda s, a: jnp.full_like(s, 0.5), None),
    'mish': (lambda x, a: nn.mish(x), lambda x, a: _mish(x), lambda s, a: jnp.full_like(s, 0.6), None),
    'mish-slow': (lambda x, a: nn.mish(x, fast=False), lambda x, a: _mish(x), lambda s, a: jnp.full_like(s, 0.6), None),
    'serf': (lambda x, a: nn.serf(x), lambda x, a: x * jax.lax.erf(SP(x)), lambda s, a: jnp.full_like(s, math.erf(math.log(2))), None),
    'shifted_softplus': (lambda x, a: nn.shifted_softplus(x), lambda x, a: SP(x) - math.log(2), lambda s, a: jnp.full_like(s, 0.5), None),
    'hard_tanh': (lambda x, a: nn.hard_tanh(x), lambda x, a: jnp.where(x > 1, 1.0, jnp.where(x < -1, -1.0, x)), lambda s, a: jnp.full_like(s, 1.0), None),
    'soft_sign': (lambda x, a: nn.soft_sign(x), lambda x, a: x / (1 + jnp.where(x >= 0, x, -x)), lambda s, a: jnp.full_like(s, 1.0), None),
    'relu6': (lambda x, a: nn.relu6(x), lambda x, a: jnp.where(x > 6, 6.0, jnp.where(x > 0, x, 0.0)), None, None),
    'hard_silu': (lambda x, a: nn.hard_silu(x), lambda x, a: x * jnp.where(x > 3, 6.0, jnp.where(x > -3, x + 3, 0.0)) / 6, lambda s, a: jnp.full_like(s, 0.5), None),
    'hard_swish': (lambda x, a: nn.hard_swish(x), lambda x, a: x * jnp.where(x > 3, 6.0, jnp.where(x > -3, x + 3, 0.0)) / 6, lambda s, a: jnp.full_like(s, 0.5), None),
    'bent_identity': (lambda x, a: nn.bent_identity(x), lambda x, a: (jnp.sqrt(x * x + 1) - 1) / 2 + x, lambda s, a: jnp.full_like(s, 1.0), None),
}
DEFAULTED = {'leaky_relu': lambda x: nn.leaky_relu(x), 'elu': lambda x: nn.elu(x), 'celu': lambda x: nn.celu(x)}
RANGES = {'far-': (-1e6, -30.0), 'far+': (30.0, 1e6), 'neg': (-30.0, -1e-3), 'pos': (1e-3, 30.0), 'small-': (-1e-3, -1e-6), 'small+': (1e-6, 1e-3)}
# thresholds that depend on the precision: the same claims with single-precision constants
RANGES32 = {'f32-mid-': (-0.3, -0.01), 'f32-mid+': (0.01, 0.3), 'f32-small-': (-0.01, -1e-3), 'f32-small+': (1e-3, 0.01), 'f32-neg': (-20.0, -0.3), 'f32-pos': (0.3, 20.0)}


def _full(act, rng, par):
  """scalar value and gate on a nonzero range; par: None, 'sym' or 'default'."""
  f, ref, _, dflt = ACTS[act]
  x64 = rng in RANGES
  lo, hi = RANGES[rng] if x64 else RANGES32[rng]

  def build():
    def prog(s, v, a=None):
      if par == 'default':
        a = dflt
      x = jnp.concatenate([s[None, None], v], axis=1)  # (1, 4, 2)
      y = DEFAULTED[act](x) if par == 'default' else f(x, a)
      H.static('shape', y.shape == x.shape and y.dtype == x.dtype, f'{y.shape} {y.dtype}')
      r = ref(s, a)
      return [H.eq('scalar', y[0, 0], r), H.eq('gate', y[0, 1:] * s, r * v[0])]
    inp = dict(s=H.Real((2,), lo, hi, srange=(lo, hi)), v=H.Real((1, 3, 2), -5, 5))
    if par == 'sym':
      inp['a'] = H.Real((), 0.25, 2.0, srange=(0.25, 2.0))
    return H.Case('', inp, prog, tol=1e-6 if x64 else 5e-6, x64=x64)
  return build


def _zero(act, par):
  """exactly zero and tiny scalars."""
  f, ref, g0, dflt = ACTS[act]

  def build():
    def prog(v, z, a=None):
      s = jnp.asarray([0.0, z, -z], v.dtype)
      x = jnp.concatenate([s[None, None], v], axis=1)
      y = f(x, a)
      out = [H.eq('scalar', y[0, 0], ref(s, a), tol=1e-9)]
      if g0 is not None:
        out.append(H.eq('gate', y[0, 1:], g0(s, a) * v[0], tol=2e-6))
      return out
    outs = []
    inp = dict(v=H.Real((1, 3, 3), -5, 5))
    if par and act != 'celu':
      inp['a'] = H.Real((), 0.25, 2.0, srange=(0.25, 2.0))

    def p(v, a=None):
      cl = []
      if act == 'celu':
        for z in (1e-300, 1.9e-16, 2.5e-16, 1e-8):
          for a in (0.25, 1.0, 2.0):
            cl += prog(v, z, a)
        return cl
      for z in (1e-300, 1e-17, 1.9e-16, 2.5e-16, 1e-12, 1e-8):
        cl += prog(v, z, a)
      return cl
    return H.Case('', inp, p, tol=1e-6, coef_tol=1e-12, drop=1e-40)
  return build


def _equiv(act, L, P, axis, pos):
  f, _, _, dflt = ACTS[act]
  par = 0.7

  def build():
    def prog(s, x, t):
      x = x.at[:, 0, 0, :].set(s)
      D = O.dmat(t, L, axis, False)
      rot = lambda v: jnp.einsum('...lf,lm->...mf', v, D)
      sg = jnp.asarray([[(-1.0) ** (l if P == 1 else p) for l in range(L + 1) for _ in range(2 * l + 1)] for p in range(P)], x.dtype)[..., None]
      y = f(x, par)
      H.static('shape', y.shape == x.shape and y.dtype == x.dtype, f'{y.shape} {y.dtype}')
      out = [H.eq('rotation', f(rot(x), par), rot(y)), H.eq('reflection', f(sg * x, par), sg * y)]
      out.append(H.eq('channel', f(x[..., 1:], par), y[..., 1:]))
      out.append(H.eq('batch', f(x[1], par), y[1]))
      return out
    lo, hi = (0.01, 20.0) if pos else (-20.0, -0.01)
    return H.Case('', dict(s=H.Real((2, 2), lo, hi, srange=(lo, hi)), x=H.Real((2, P, (L + 1) ** 2, 2), -5, 5), t=H.Angle()), prog, tol=1e-6)
  return build


def cases(tier):
  out = []
  for act, (f, ref, g0, dflt) in ACTS.items():
    for rng in RANGES:
      out.append((f'{act}-{rng}', _full(act, rng, 'sym' if dflt is not None else None)))
      if dflt is not None and rng in ('neg', 'pos'):
        out.append((f'{act}-{rng}-default', _full(act, rng, 'default')))
    for rng in RANGES32:
      out.append((f'{act}-{rng}', _full(act, rng, 'sym' if dflt is not None else None)))
    out.append((f'{act}-zero', _zero(act, dflt is not None)))
    for P in (1, 2):
      out.append((f'{act}-equiv-{P}-pos', _equiv(act, 2 if tier == 'quick' else 3, P, 'x', True)))
      out.append((f'{act}-equiv-{P}-neg', _equiv(act, 1, P, 'y', False)))
  return out
