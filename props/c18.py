"""C18: radial functions, cutoffs, switches, windows, mappings."""
import functools
import itertools
import math
import jax
import jax.numpy as jnp
import numpy as np
import e3x
from sx import harness as H

nn = e3x.nn
INFO = dict(
    functions=['e3x.nn.' + n for n in ('basic_bernstein', 'reciprocal_bernstein', 'exponential_bernstein', 'basic_chebyshev', 'reciprocal_chebyshev', 'exponential_chebyshev', 'basic_fourier', 'reciprocal_fourier', 'exponential_fourier', 'basic_gaussian', 'reciprocal_gaussian', 'exponential_gaussian', 'sinc', 'rectangular_window', 'triangular_window', 'smooth_window', 'smooth_switch', 'smooth_cutoff', 'cosine_cutoff', 'smooth_damping', 'reciprocal_mapping', 'exponential_mapping')],
    bounds='all x in units of the limit/cutoff/switch range: inside [1e-6, 1-1e-6], outside up to 1e3, and exactly at the ends; symbolic limits in [0.1, 100], cutoffs and switch ends (symbolic), gamma in [0.01, 10]; 1..6 functions (quick) / 1..8 (thorough); all kinds and weightings',
    outside='x within 1e-6 (relative) of the ends of a range but not at the end (see C19 for finiteness there); float rounding; the value of the non-Bernstein families outside [0, limit]',
    explanation='Values equal the documented closed formulas (identities between exp/log/trigonometric normal forms); bounds, monotonicity (sign of the derivative) and supports are decided with interval-guarded polynomial normal forms and z3; custom derivative rules are compared with the derivative of the documented formula.',
    assumptions=['real arithmetic'])

IN = (1e-6, 1 - 1e-6)


def d(f, x):
  return jax.jvp(f, (x,), (jnp.ones_like(x),))


def bern(x, num):
  n = num - 1
  return jnp.stack([math.comb(n, k) * x ** k * (1 - x) ** (n - k) for k in range(num)], -1)


def dbern(x, num):
  n = num - 1
  r = []
  for k in range(num):
    a = k * x ** (k - 1) * (1 - x) ** (n - k) if k else jnp.zeros_like(x)
    b = (n - k) * x ** k * (1 - x) ** (n - k - 1) if n - k else jnp.zeros_like(x)
    r.append(math.comb(n, k) * (a - b))
  return jnp.stack(r, -1)


def cheb(x, num):
  t = [jnp.ones_like(x), x]
  while len(t) < num:
    t.append(2 * x * t[-1] - t[-2])
  return jnp.stack(t[:num], -1)


def four(x, num):
  return jnp.stack([jnp.cos(k * jnp.pi * x) for k in range(num)], -1)


def gaus(x, num):
  return jnp.stack([jnp.exp(-math.sqrt(2 * num) * (num - 1) * (x - (k / (num - 1) if num > 1 else 0)) ** 2) for k in range(num)], -1)


def _basic(fam, num, batch=(), dflt=False):
  f = getattr(nn, f'basic_{fam}')

  def build():
    def prog(s, l):
      x = s if dflt else s * l
      g = (lambda x: f(x, num)) if dflt else (lambda x: f(x, num=num, limit=l))
      y, dy = d(g, x)
      sc = 1.0 if dflt else 1 / l
      H.static('shape', y.shape == (*batch, num) and y.dtype == s.dtype, f'{y.shape} {y.dtype}')
      if fam == 'bernstein':
        ref, dref = bern(s, num), dbern(s, num) * sc
      elif fam == 'chebyshev':
        ref, dref = cheb(2 * s - 1, num), None
      elif fam == 'fourier':
        ref, dref = d(lambda v: four(v, num), s)
        dref = dref * sc
      else:
        ref, dref = d(lambda v: gaus(v, num), s)
        dref = dref * sc
      out = [H.eq('value', y, ref)]
      if dref is not None:
        out.append(H.eq('derivative', dy, dref))
      if fam == 'bernstein':
        out += ([H.le('nonnegative', jnp.zeros_like(y), y, tol=1e-9)] if num <= 8 else []) + [H.eq('sum', y.sum(-1), jnp.ones_like(s)), H.eq('derivative of the sum', dy.sum(-1), jnp.zeros_like(s))]
        if num <= 4:
          _, d2 = d(lambda x: d(g, x)[1], x)
          _, r2 = d(lambda v: dbern(v, num) * sc, s)
          out.append(H.eq('second derivative', d2, r2 * sc))
      return out
    return H.Case('', dict(s=H.Real(batch, *IN), l=H.Real((), 0.1, 100.0, srange=(0.1, 5))), prog, tol=1e-6 if num <= 8 else 2e-5)
  return build


def _bern_out(num, lo, hi, dflt):
  def build():
    def prog(s, l):
      f = (lambda x: nn.basic_bernstein(x, num)) if dflt else (lambda x: nn.basic_bernstein(x, num, limit=l))
      y, dy = d(f, s if dflt else s * l)
      e = np.zeros(num)
      e[0 if lo < 0.5 else -1] = 1
      ref = jnp.broadcast_to(jnp.asarray(e, s.dtype), y.shape)
      out = [H.eq('value', y, ref), H.eq('sum', y.sum(-1), jnp.ones_like(s))]
      # one-sided derivative of the polynomials at the ends, still summing to 0
      out.append(H.eq('derivative of the sum', dy.sum(-1), jnp.zeros_like(s)))
      return out
    return H.Case('', dict(s=H.Real((2,), lo, hi), l=H.Real((), 0.1, 100.0, srange=(0.1, 5))), prog, tol=1e-6, vacuity=False)
  return build


def _map(kind, x):
  if kind == 'shifted':
    return 1 / (1 + x)
  if kind == 'damped':
    return (1 - jnp.exp(-x)) / x
  return 1 / (x + jnp.exp(-x))


def _emap(x, gamma, cuspless):
  return jnp.exp(-gamma * (x + jnp.exp(-x) - 1)) if cuspless else jnp.exp(-gamma * x)


FAM = {'bernstein': lambda m, num: bern(1 - m, num), 'chebyshev': lambda m, num: cheb(2 * m - 1, num), 'fourier': lambda m, num: four(1 - m, num), 'gaussian': lambda m, num: gaus(1 - m, num)}


def _recip(fam, kind, weight, num):
  f = getattr(nn, f'reciprocal_{fam}')

  def build():
    def prog(x):
      y = f(x, num, kind=kind, use_reciprocal_weighting=weight)
      m = _map(kind, x)
      ref = FAM[fam](m, num) * (m[..., None] if weight else 1.0)
      out = [H.eq('value', y, ref)]
      if fam == 'bernstein':
        out += [H.eq('sum', y.sum(-1), m if weight else jnp.ones_like(x))]
      return out
    return H.Case('', dict(x=H.Real((1,), 1e-4, 1e3, srange=(1e-2, 10))), prog, tol=1e-6)
  return build


def _expo(fam, cuspless, weight, num, gamma):
  f = getattr(nn, f'exponential_{fam}')

  def build():
    def prog(x, g):
      kw = {} if gamma == 'default' else dict(gamma=g)
      g = jnp.ones_like(g) if gamma == 'default' else g
      y = f(x, num, cuspless=cuspless, use_exponential_weighting=weight, **kw)
      m = _emap(x, g, cuspless)
      ref = FAM[fam](m, num) * (m[..., None] if weight else 1.0)
      out = [H.eq('value', y, ref)]
      if fam == 'bernstein':
        out += [H.eq('sum', y.sum(-1), m if weight else jnp.ones_like(x))]
      return out
    return H.Case('', dict(x=H.Real((1,), 1e-2, 3.0, srange=(1e-2, 2)), g=H.Real((), 0.1, 3.0, srange=(0.5, 2))), prog, tol=1e-6)
  return build


def _mapping(which, arg, lo=0.0, hi=1e3):
  """range (0, 1], 1 at 0, nonincreasing."""
  def build():
    def prog(x, g):
      if which == 'reciprocal':
        f = lambda x: nn.reciprocal_mapping(x, kind=arg)
        ref = _map(arg, x)
      else:
        f = lambda x: nn.exponential_mapping(x, gamma=g, cuspless=arg)
        ref = _emap(x, g, arg)
      y, dy = d(f, x)
      z = jnp.zeros_like(x)
      out = [H.eq('value', y, ref), H.le('nonnegative', z, y, tol=1e-9), H.le('at most 1', y, jnp.ones_like(x), tol=1e-6)]
      out.append(H.le('nonincreasing', dy, z, tol=1e-6))
      return out
    return H.Case('', dict(x=H.Real((), lo, hi, srange=(lo, min(hi, 5))), g=H.Real((), 0.01, 10.0, srange=(0.5, 2))), prog, tol=1e-6)
  return build


def _mapping0():
  def build():
    def prog(g):
      z = jnp.zeros((2,), g.dtype)
      o = jnp.ones((2,), g.dtype)
      out = []
      for k in ('shifted', 'damped', 'cuspless'):
        y, dy = d(lambda x: nn.reciprocal_mapping(x, kind=k), z)
        out += [H.eq(k, y, o), H.eq(f"{k}'", dy, {'shifted': -o, 'damped': -o / 2, 'cuspless': z}[k])]
      for c in (False, True):
        y, dy = d(lambda x: nn.exponential_mapping(x, gamma=g, cuspless=c), z)
        out += [H.eq(f'exp{c}', y, o), H.eq(f"exp{c}'", dy, z if c else -g * o)]
      out.append(H.eq('default', nn.reciprocal_mapping(z + g), 1 / (1 + g + z)))
      out.append(H.eq('default exp', nn.exponential_mapping(z + g), jnp.exp(-g - z)))
      return out
    return H.Case('', dict(g=H.Real((), 0.01, 10.0, srange=(0.5, 2))), prog, tol=1e-6)
  return build


def _cut(fn, where, dflt):
  """cutoff functions; the radius is concrete (the code branches on it) or symbolic via every path."""
  f = getattr(nn, fn)
  lo, hi = {'in': IN, 'out': (1.0, 1e3), 'at': (1.0, 1.0), 'zero': (0.0, 0.0)}[where]

  def build():
    def prog(s, c):
      out = []

      def run():
        g = (lambda x: f(x)) if dflt else (lambda x: f(x, cutoff=c))
        return d(g, s if dflt else s * c)
      for k, (cond, r) in enumerate(H.paths(run)):
        if isinstance(r, Exception):
          out.append(H.true(f'accepted{k}', jnp.logical_not(cond)))
          continue
        (y, dy), w = r, cond
        cl = functools.partial(H.eq, where=w)
        le = functools.partial(H.le, where=w)
        z, o = jnp.zeros_like(s), jnp.ones_like(s)
        sc = 1.0 if dflt else 1 / c
        if where in ('out', 'at'):
          out += [cl(f'zero{k}', y, z), cl(f'derivative{k}', dy, z)]
        elif where == 'zero':
          out += [cl(f'one{k}', y, o), cl(f'derivative{k}', dy, z)]
        else:
          if fn == 'smooth_cutoff':
            ref, dref = d(lambda v: jnp.exp(1 - 1 / (1 - v * v)), s)
          else:
            ref, dref = d(lambda v: (1 + jnp.cos(jnp.pi * v)) / 2, s)
          out += [cl(f'value{k}', y, ref), cl(f'derivative{k}', dy, dref * sc), le(f'lower{k}', z, y, tol=1e-9), le(f'upper{k}', y, o, tol=1e-9), le(f'monotone{k}', dy, z, tol=1e-9)]
      return out
    return H.Case('', dict(s=H.Real((), lo, hi, srange=(lo, min(hi, 3))), c=H.Real((), 0.1, 100.0, srange=(0.1, 5))), prog, tol=1e-6, vacuity=False)
  return build


def _switch(where, dflt):
  lo, hi = {'in': (2e-3, 1 - 2e-3), 'low': (-1e3, 0.0), 'high': (1.0, 1e3)}[where]

  def build():
    def prog(s, a, w):
      out = []

      def run():
        f = (lambda x: nn.smooth_switch(x)) if dflt else (lambda x: nn.smooth_switch(x, a, a + w))
        return d(f, s if dflt else a + s * w)
      for k, (cond, r) in enumerate(H.paths(run)):
        if isinstance(r, Exception):
          out.append(H.true(f'accepted{k}', jnp.logical_not(cond)))
          continue
        y, dy = r
        cl = functools.partial(H.eq, where=cond)
        le = functools.partial(H.le, where=cond)
        z, o = jnp.zeros_like(s), jnp.ones_like(s)
        if where == 'in':
          c = math.sqrt(3) / 2
          e = jnp.exp(c * (1 / s - 1 / (1 - s)))
          ref = 1 / (1 + e)
          dref = c * (1 / s ** 2 + 1 / (1 - s) ** 2) * e * ref ** 2
          out += [cl(f'value{k}', y, ref), cl(f'derivative{k}', dy, dref / (1.0 if dflt else w)), le(f'lower{k}', z, y, tol=1e-9), le(f'upper{k}', y, o, tol=1e-9), le(f'monotone{k}', z, dy, tol=1e-9)]
        else:
          out += [cl(f'value{k}', y, z if where == 'low' else o), cl(f'derivative{k}', dy, z)]
      return out
    return H.Case('', dict(s=H.Real((), lo, hi, srange=(max(lo, -3), min(hi, 3))), a=H.Real((), -50.0, 50.0), w=H.Real((), 0.1, 100.0, srange=(0.1, 5))), prog, tol=1e-6, vacuity=False)
  return build


def _damping(lo, hi, dflt):
  def build():
    def prog(x, g):
      y, dy = d((lambda v: nn.smooth_damping(v)) if dflt else (lambda v: nn.smooth_damping(v, gamma=g)), x)
      if dflt:
        g = jnp.ones_like(g)
      e = jnp.exp(-g * x)
      z = jnp.zeros_like(x)
      if hi == 0.0:
        return [H.eq('zero', y, z), H.eq('flat', dy, z)]
      ref = jnp.exp(-e / (1 - e))
      return [H.eq('value', y, ref), H.le('lower', z, y, tol=1e-9), H.le('upper', y, jnp.ones_like(x), tol=1e-9), H.le('monotone', z, dy, tol=1e-9)]
    return H.Case('', dict(x=H.Real((), lo, hi, srange=(lo, min(hi, 5))), g=H.Real((), 0.1, 10.0, srange=(0.5, 2))), prog, tol=1e-6, vacuity=False)
  return build


def _rect(num, l):
  """all x: 0 or 1, one exactly on the own interval."""
  def build():
    def prog(s):
      kw = {} if l is None else dict(limit=l)
      L = 1.0 if l is None else l
      y = nn.rectangular_window(s * (L / num), num, **kw)
      out = []
      for k in range(num):
        own = jnp.logical_and(s > k + 1e-6, s < k + 1 - 1e-6)
        off = jnp.logical_or(s < k - 1e-6, s > k + 1 + 1e-6)
        out += [H.eq(f'own {k}', y[..., k], jnp.ones_like(s), where=own), H.eq(f'off {k}', y[..., k], jnp.zeros_like(s), where=off)]
      inside = jnp.logical_and(s > 1e-6, s < num - 1e-6)
      out.append(H.true('covered', y.sum(-1) > 0.5, where=inside))
      return out
    return H.Case('', dict(s=H.Real((), -3.0, num + 3.0)), prog, tol=1e-6)
  return build


def _tri(num, l):
  def build():
    def prog(s):
      kw = {} if l is None else dict(limit=l)
      L = 1.0 if l is None else l
      y = nn.triangular_window(s * (L / num), num, **kw)
      out = [H.le('nonnegative', jnp.zeros_like(y), y, tol=1e-9), H.le('at most 1', y, jnp.ones_like(y), tol=1e-6)]
      for k in range(num):
        ref = 1 - jnp.abs(s - k)
        out.append(H.eq(f'own {k}', y[..., k], jnp.where(ref > 0, ref, 0.0)))
      inside = jnp.logical_and(s >= 0, s <= num - 1)
      out.append(H.eq('partition', y.sum(-1), jnp.ones_like(s), where=inside))
      return out
    return H.Case('', dict(s=H.Real((), -3.0, num + 3.0)), prog, tol=1e-6)
  return build


def _swin(num, l, j):
  """x in the j-th interval (j from -2 to num)."""
  def build():
    def prog(s):
      kw = {} if l is None else dict(limit=l)
      L = 1.0 if l is None else l
      x = (s + j) * (L / num)
      y, dy = d(lambda x: nn.smooth_window(x, num, **kw), x)
      g = 1 / (1 + jnp.exp(math.sqrt(3) / 2 * (1 / s - 1 / (1 - s))))
      ref = []
      for k in range(num):
        ref.append(g if j == k - 1 else 1 - g if j == k else jnp.zeros_like(s))
      out = [H.eq('value', y, jnp.stack(ref, -1), tol=1e-5), H.le('nonnegative', jnp.zeros_like(y), y, tol=1e-6), H.le('at most 1', y, jnp.ones_like(y), tol=1e-6)]
      if 0 <= j <= num - 2:
        out.append(H.eq('partition', y.sum(-1), jnp.ones_like(s), tol=1e-5))
      return out
    return H.Case('', dict(s=H.Real((), 1e-3, 1 - 1e-3)), prog, tol=1e-6, vacuity=False)
  return build


def _sinc(num, where, dflt):
  lo, hi = {'in': (1e-3, 1.0), 'out': (1 + 1e-6, 1e3), 'zero': (0.0, 0.0)}[where]

  def build():
    def prog(s, l):
      y = nn.sinc(s, num) if dflt else nn.sinc(s * l, num, limit=l)
      if where == 'out':
        return [H.eq('zero', y, jnp.zeros_like(y))]
      if where == 'zero':
        return [H.eq('one', y, jnp.ones_like(y))]
      ref = jnp.stack([jnp.sin(k * jnp.pi * s) / (k * jnp.pi * s) for k in range(1, num + 1)], -1)
      return [H.eq('value', y, ref)]
    return H.Case('', dict(s=H.Real((2,), lo, hi, srange=(lo, min(hi, 3))), l=H.Real((), 0.1, 100.0, srange=(0.1, 5))), prog, tol=1e-6, vacuity=False)
  return build


DEFAULTS = dict(
    basic=dict(limit=1.0), reciprocal=dict(kind='shifted', use_reciprocal_weighting=False),
    exponential=dict(gamma=1.0, cuspless=False, use_exponential_weighting=False),
    sinc=dict(limit=1.0), rectangular_window=dict(limit=1.0), triangular_window=dict(limit=1.0), smooth_window=dict(limit=1.0),
    smooth_cutoff=dict(cutoff=1.0), cosine_cutoff=dict(cutoff=1.0), smooth_switch=dict(x0=0.0, x1=1.0), smooth_damping=dict(gamma=1.0),
    reciprocal_mapping=dict(kind='shifted'), exponential_mapping=dict(gamma=1.0, cuspless=False))


def _elementwise(name, num, given, shape):
  """Arrays of any shape are treated element by element; options left out take their documented default."""
  f = getattr(nn, name)
  kw = dict(DEFAULTS[name] if name in DEFAULTS else DEFAULTS[name.split('_')[0]])
  if given:  # every option on
    kw.update({k: True for k in kw if k.startswith('use_') or k == 'cuspless'})

  def build():
    def prog(x):
      a = () if num is None else (num,)
      y = f(x, *a, **(kw if given else {}))
      ref = jnp.stack([f(x[i], *a, **kw) for i in np.ndindex(*shape)]).reshape(*shape, *((num,) if num else ()))
      H.static('shape', y.shape == ref.shape, f'{y.shape} {ref.shape}')
      return [H.eq('elements', y, ref)]
    return H.Case('', dict(x=H.Real(shape, 0.05, 0.95, srange=(0.05, 0.95))), prog, tol=1e-6, vacuity=False)
  return build


def cases(tier):
  out = []
  for fam in ('bernstein', 'chebyshev', 'fourier', 'gaussian'):
    for kind in ('basic', 'reciprocal', 'exponential'):
      for num, given, shape in ((2, False, (2, 3)), (3, True, (2, 2)), (1, False, (1, 2))):
        out.append((f'elements-{kind}_{fam}-{num}', _elementwise(f'{kind}_{fam}', num, given, shape)))
    for num in (9, 12):
      out.append((f'basic-{fam}-{num}', _basic(fam, num)))
  for n in ('sinc', 'rectangular_window', 'triangular_window', 'smooth_window'):
    out.append((f'elements-{n}', _elementwise(n, 3, False, (2, 2))))
  for n in ('smooth_cutoff', 'cosine_cutoff', 'smooth_switch', 'smooth_damping', 'reciprocal_mapping', 'exponential_mapping'):
    out.append((f'elements-{n}', _elementwise(n, None, False, (2, 2))))
  T = tier != 'quick'
  nmax = 8 if T else 6
  for num in range(1, nmax + 1):
    for fam in ('bernstein', 'chebyshev', 'fourier', 'gaussian'):
      out.append((f'basic-{fam}-{num}', _basic(fam, num, (2,) if num % 2 else ())))
    out.append((f'bernstein-{num}-low', _bern_out(num, -1e3, 0.0, num % 2 == 0)))
    out.append((f'bernstein-{num}-high', _bern_out(num, 1.0, 1e3, num % 2 == 0)))
  for fam in ('bernstein', 'chebyshev', 'fourier', 'gaussian'):
    out.append((f'basic-{fam}-default', _basic(fam, 4, (2, 1), True)))
    for num in ((1, 2, 3, 4) if not T else (1, 2, 3, 4, 5, 6)):
      for w in (False, True):
        for kind in ('shifted', 'damped', 'cuspless'):
          out.append((f'reciprocal-{fam}-{kind}-{int(w)}-{num}', _recip(fam, kind, w, num)))
        for c in (False, True):
          out.append((f'exponential-{fam}-{int(c)}-{int(w)}-{num}', _expo(fam, c, w, num, 'sym' if num != 3 else 'default')))
  for k in ('shifted', 'damped', 'cuspless'):
    out.append((f'reciprocal_mapping-{k}', _mapping('reciprocal', k, 1e-4 if k == 'damped' else 0.0, 1e3)))
  for c in (False, True):
    out.append((f'exponential_mapping-{c}', _mapping('exponential', c, 0.0, 50.0)))
  out.append(('mapping-at-0', _mapping0()))
  for fn in ('smooth_cutoff', 'cosine_cutoff'):
    for where in ('in', 'out', 'at', 'zero'):
      for dflt in (True, False):
        out.append((f'{fn}-{where}-{int(dflt)}', _cut(fn, where, dflt)))
  for where in ('in', 'low', 'high'):
    for dflt in (True, False):
      out.append((f'smooth_switch-{where}-{int(dflt)}', _switch(where, dflt)))
  for lo, hi in [(0.0, 0.0), (1e-2, 2.0), (1.0, 50.0)]:
    for dflt in (True, False):
      out.append((f'smooth_damping-{hi}-{int(dflt)}', _damping(lo, hi, dflt)))
  for num in range(1, nmax + 1):
    for l in (None, 2.5):
      out.append((f'rectangular-{num}-{l}', _rect(num, l)))
      out.append((f'triangular-{num}-{l}', _tri(num, l)))
  for num in range(1, 5):
    for j in range(-2, num + 1):
      out.append((f'smooth_window-{num}-{j}', _swin(num, None if num % 2 else 3.0, j)))
  for num in (1, 2, 4):
    for where in ('in', 'out', 'zero'):
      out.append((f'sinc-{num}-{where}', _sinc(num, where, num == 2)))
  return out
