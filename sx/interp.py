"""Symbolic interpreter for jaxprs.

The real e3x code is traced by jax (jax.make_jaxpr) and every equation of the
resulting jaxpr is executed here on arrays whose elements are numbers or Polys.
Equations whose operands are all concrete are executed by jax itself.
"""
from __future__ import annotations

import itertools
import math

import jax
import jax.numpy as jnp
import numpy as np
from jax import lax

from . import poly as P
from .poly import Poly, Unsupported

try:
  from jax.extend import core as jex_core
  Literal = jex_core.Literal
except Exception:  # pragma: no cover
  from jax._src.core import Literal
from jax._src import core as jcore


class S:
  """Symbolic array: numpy object array plus the jax dtype."""
  __slots__ = ('a', 'dtype')

  def __init__(self, a, dtype):
    assert a.dtype == object
    self.a = a
    self.dtype = np.dtype(dtype)

  @property
  def shape(self):
    return self.a.shape

  def __repr__(self):
    return f'S{self.a.shape}:{self.dtype}'


def is_s(x):
  return isinstance(x, S)


def obj(x):
  """Object array view of a value."""
  if isinstance(x, S):
    return x.a
  x = np.asarray(x)
  out = np.empty(x.shape, dtype=object)
  if x.dtype.kind in 'fiub' or x.dtype.name in ('bfloat16', 'float16'):
    xs = x.astype(np.float64) if x.dtype.kind != 'b' else x.astype(float)
    flat = out.reshape(-1)
    if x.dtype.kind == 'f' and xs.size:
      # finfo.max / finfo.min stand for "very large": their sums must not
      # overflow the doubles that represent exact coefficients
      with np.errstate(invalid='ignore'):
        big = np.isfinite(xs) & (np.abs(xs) >= (1e307 if x.dtype.itemsize == 8 else 3e38))
      if big.any():
        xs = np.where(big, np.sign(xs) * 1e150, xs)
    flat[:] = xs.reshape(-1).tolist()
    return flat.reshape(x.shape)
  raise Unsupported(f'dtype {x.dtype}')


def wrap(a, dtype):
  """Object array -> S, or concrete numpy array when nothing is symbolic."""
  a = np.asarray(a, dtype=object)
  dtype = np.dtype(dtype)
  if not any(isinstance(v, Poly) for v in a.flat):
    flat = np.array([float(v) for v in a.flat], dtype=np.float64)
    if dtype.kind == 'b':
      return (flat != 0).reshape(a.shape)
    with np.errstate(over='ignore'):
      return flat.astype(dtype).reshape(a.shape)
  return S(a, dtype)


def empty(shape):
  return np.empty(shape, dtype=object)


def map1(f, x):
  a = obj(x)
  out = empty(a.shape)
  of, af = out.reshape(-1), a.reshape(-1)
  for i in range(af.size):
    of[i] = f(af[i])
  return of.reshape(a.shape)


def map2(f, x, y):
  a, b = np.broadcast_arrays(obj(x), obj(y))
  out = empty(a.shape)
  of = out.reshape(-1)
  for i, (u, v) in enumerate(zip(a.flat, b.flat)):
    of[i] = f(u, v)
  return of.reshape(a.shape)


RULES = {}


def rule(*names):
  def deco(f):
    for n in names:
      RULES[n] = f
    return f
  return deco


class Interp:

  def __init__(self):
    self.prims = {}
    self.functions = set()

  def run(self, jaxpr, consts, args):
    env = {}

    def read(v):
      if isinstance(v, Literal):
        return np.asarray(v.val) if not hasattr(v.val, 'dtype') else v.val
      return env[v]

    def write(v, x):
      env[v] = x

    for v, c in zip(jaxpr.constvars, consts):
      write(v, c)
    for v, a in zip(jaxpr.invars, args):
      write(v, a)
    # free variables no longer needed
    last = {}
    for i, eqn in enumerate(jaxpr.eqns):
      for v in eqn.invars:
        if not isinstance(v, Literal):
          last[v] = i
    outs = {v for v in jaxpr.outvars if not isinstance(v, Literal)}
    for i, eqn in enumerate(jaxpr.eqns):
      ins = [read(v) for v in eqn.invars]
      res = self.eqn(eqn, ins)
      for v, r in zip(eqn.outvars, res):
        if isinstance(r, S) and tuple(r.shape) != tuple(v.aval.shape):
          raise AssertionError(
              f'{eqn.primitive}: shape {r.shape} vs {v.aval.shape}')
        write(v, r)
      for v in eqn.invars:
        if not isinstance(v, Literal) and last.get(v) == i and v not in outs:
          env.pop(v, None)
    return [read(v) for v in jaxpr.outvars]

  def closed(self, cj, args):
    return self.run(cj.jaxpr, cj.consts, args)

  def eqn(self, eqn, ins):
    name = eqn.primitive.name
    self.prims[name] = self.prims.get(name, 0) + 1
    if not any(is_s(x) for x in ins) and name not in ('pure_callback',):
      return self.concrete(eqn, ins)
    f = RULES.get(name)
    if f is None:
      f = find_generic(name, eqn)
    if f is None:
      raise Unsupported(f'primitive {name}')
    r = f(self, eqn, ins)
    return r if isinstance(r, (list, tuple)) else [r]

  def concrete(self, eqn, ins):
    with jax.ensure_compile_time_eval():
      bp = eqn.primitive.get_bind_params(eqn.params)
      subfuns, params = bp if isinstance(bp, tuple) else ((), bp)
      r = eqn.primitive.bind(*subfuns, *[_jx(x) for x in ins], **params)
    if not eqn.primitive.multiple_results:
      r = [r]
    return [_np(x) for x in r]


def _jx(x):
  if isinstance(x, np.ndarray) or np.isscalar(x):
    return jnp.asarray(x)
  return x


def _np(x):
  try:
    if jnp.issubdtype(x.dtype, jax.dtypes.prng_key):
      return x
  except Exception:
    pass
  return np.asarray(x)


# -- sub-jaxprs ----------------------------------------------------------------
def _sub(params):
  for k in ('jaxpr', 'call_jaxpr', 'fun_jaxpr'):
    if k in params:
      return params[k]
  return None


def _run_sub(self, sub, ins):
  if hasattr(sub, 'consts'):
    return self.run(sub.jaxpr, sub.consts, ins)
  return self.run(sub, [], ins)


def find_generic(name, eqn):
  sub = _sub(eqn.params)
  if sub is not None and name not in ('scan', 'while', 'cond'):
    return lambda self, e, ins: _run_sub(self, _sub(e.params), ins)
  return None


@rule('closed_call', 'core_call', 'remat', 'checkpoint', 'remat2',
      'custom_vjp_call_jaxpr', 'custom_lin')
def _call(self, eqn, ins):
  return _run_sub(self, _sub(eqn.params), ins)


def _sinc_ok(eqn):
  """The sub-jaxpr named sinc really is sinc (1 in) or its jvp (2 in)."""
  n = len(eqn.invars)
  if n not in (1, 2) or len(eqn.outvars) != n:
    return False
  av = eqn.invars[0].aval
  if any(v.aval.shape != av.shape or v.aval.dtype != av.dtype for v in (*eqn.invars, *eqn.outvars)):
    return False
  rng = np.random.default_rng(0)
  sub = eqn.params['jaxpr']
  tol = 1e-9 if av.dtype == np.float64 else 1e-4
  for scale in (0.3, 1.0, 4.0):
    x = rng.uniform(-scale, scale, av.shape).astype(av.dtype)
    t = rng.normal(size=av.shape).astype(av.dtype)
    with jax.ensure_compile_time_eval():
      r = jax.core.eval_jaxpr(sub.jaxpr, sub.consts, *[jnp.asarray(v) for v in (x, t)[:n]])
    y = np.sinc(x)
    if not np.allclose(r[0], y, atol=tol, rtol=tol):
      return False
    if n == 2 and not np.allclose(r[1], t * (np.cos(np.pi * x) - y) / x, atol=tol * 10, rtol=tol * 10):
      return False
  return True


def _sinc(self, eqn, ins):
  def f(x):
    if not isinstance(x, Poly):
      return float(np.sinc(x))
    px = P.mul(x, math.pi)
    return P.select(P.eq0(x), P.div(P.unary('sin', px), P.select(P.eq0(x), px, 1.0)), 1.0)

  def df(x):
    if not isinstance(x, Poly):
      return float((np.cos(np.pi * x) - np.sinc(x)) / x) if x else 0.0
    px = P.mul(x, math.pi)
    y = P.div(P.unary('sin', px), P.select(P.eq0(x), px, 1.0))
    return P.select(P.eq0(x), P.div(P.sub(P.unary('cos', px), y), P.select(P.eq0(x), x, 1.0)), 0.0)
  x = ins[0]
  dt = eqn.outvars[0].aval.dtype
  out = [wrap(map1(f, x), dt)]
  if len(ins) == 2:
    out.append(wrap(map2(P.mul, map1(df, x), ins[1]), dt))
  return out


@rule('pjit', 'jit')
def _pjit(self, eqn, ins):
  if eqn.params.get('name') == 'sinc' and _sinc_ok(eqn):
    return _sinc(self, eqn, ins)
  return _run_sub(self, _sub(eqn.params), ins)


@rule('polynomial')
def _polynomial(self, eqn, ins):
  x, cs = ins[0], ins[1:]
  r = obj(cs[-1])
  for c in cs[-2::-1]:
    r = map2(P.add, map2(P.mul, r, x), c)
  return wrap(r, eqn.outvars[0].aval.dtype)


@rule('custom_jvp_call', 'custom_vjp_call')
def _custom(self, eqn, ins):
  return _run_sub(self, _sub(eqn.params), ins)


@rule('cond')
def _cond(self, eqn, ins):
  idx, ops = ins[0], ins[1:]
  branches = eqn.params['branches']
  if not is_s(idx):
    k = int(np.clip(int(np.asarray(idx)), 0, len(branches) - 1))
    return _run_sub(self, branches[k], ops)
  i = idx.a.reshape(())[()]
  outs = [_run_sub(self, b, ops) for b in branches]
  res = []
  for vals in zip(*outs):
    cur = obj(vals[-1])
    for k in range(len(branches) - 2, -1, -1):
      c = P.le(i, float(k)) if idx.dtype.kind != 'b' else P.bnot(i)
      cur = map2(lambda x, y, c=c: P.select(c, x, y), cur, vals[k])
    res.append(wrap(cur, _dt(vals[0])))
  return res


@rule('scan')
def _scan(self, eqn, ins):
  p = eqn.params
  nc, ncar, length, rev = p['num_consts'], p['num_carry'], p['length'], p['reverse']
  consts, carry, xs = ins[:nc], list(ins[nc:nc + ncar]), ins[nc + ncar:]
  ys = None
  order = range(length - 1, -1, -1) if rev else range(length)
  n_out = len(eqn.outvars) - ncar
  ys = [[None] * length for _ in range(n_out)]
  for t in order:
    x_t = [index0(x, t) for x in xs]
    out = _run_sub(self, p['jaxpr'], [*consts, *carry, *x_t])
    carry = list(out[:ncar])
    for j, y in enumerate(out[ncar:]):
      ys[j][t] = y
  res = list(carry)
  for j, col in enumerate(ys):
    aval = eqn.outvars[ncar + j].aval
    if length == 0:
      res.append(np.zeros(aval.shape, aval.dtype))
    elif any(is_s(y) for y in col):
      st = empty((length, *aval.shape[1:]))
      for t, y in enumerate(col):
        st[t] = obj(y)
      res.append(wrap(st, aval.dtype))
    else:
      res.append(np.stack([np.asarray(y) for y in col]))
  return res


def index0(x, t):
  if is_s(x):
    r = x.a[t]
    if not isinstance(r, np.ndarray):
      z = empty(())
      z[()] = r
      r = z
    return wrap(r, x.dtype)
  return np.asarray(x)[t]


@rule('while')
def _while(self, eqn, ins):
  p = eqn.params
  cn, bn = p['cond_nconsts'], p['body_nconsts']
  cc, bc, carry = ins[:cn], ins[cn:cn + bn], list(ins[cn + bn:])
  for _ in range(2000):
    c, = _run_sub(self, p['cond_jaxpr'], [*cc, *carry])
    if is_s(c):
      v = c.a.reshape(-1)[0]
      raise Unsupported(f'while with symbolic condition {v}')
    if not bool(np.asarray(c)):
      return carry
    carry = _run_sub(self, p['body_jaxpr'], [*bc, *carry])
  raise P.Blowup('while loop')


def _dt(x):
  return x.dtype if is_s(x) else np.asarray(x).dtype


# -- data movement by running the primitive on element ids ------------------------
def by_ids(self, eqn, ins, which):
  """Run the primitive on integer ids for operands `which`."""
  pool = []
  new = []
  for k, x in enumerate(ins):
    if k in which:
      a = obj(x)
      ids = np.arange(len(pool), len(pool) + a.size, dtype=np.int32).reshape(a.shape)
      pool.extend(a.reshape(-1).tolist() if False else list(a.reshape(-1)))
      new.append(ids)
    else:
      if is_s(x):
        raise Unsupported(f'{eqn.primitive.name}: symbolic operand {k}')
      new.append(x)
  params = dict(eqn.params)
  with jax.ensure_compile_time_eval():
    r = eqn.primitive.bind(*[jnp.asarray(x) for x in new], **params)
  if not eqn.primitive.multiple_results:
    r = [r]
  outs = []
  for y, v in zip(r, eqn.outvars):
    y = np.asarray(y)
    out = empty(y.shape)
    of = out.reshape(-1)
    for i, k in enumerate(y.reshape(-1).tolist()):
      of[i] = pool[k]
    outs.append(wrap(of.reshape(y.shape), v.aval.dtype))
  return outs


@rule('reshape')
def _reshape(self, eqn, ins):
  x, = ins[:1]
  if eqn.params.get('dimensions') is not None:
    raise Unsupported('reshape dims')
  return S(x.a.reshape(eqn.outvars[0].aval.shape), x.dtype)


@rule('transpose')
def _transpose(self, eqn, ins):
  return S(np.transpose(ins[0].a, eqn.params['permutation']), ins[0].dtype)


@rule('squeeze')
def _squeeze(self, eqn, ins):
  return S(ins[0].a.reshape(eqn.outvars[0].aval.shape), ins[0].dtype)


@rule('expand_dims')
def _expand(self, eqn, ins):
  return S(ins[0].a.reshape(eqn.outvars[0].aval.shape), ins[0].dtype)


@rule('broadcast_in_dim')
def _bcast(self, eqn, ins):
  x = ins[0]
  shape = eqn.params['shape']
  bd = eqn.params['broadcast_dimensions']
  tmp = [1] * len(shape)
  for i, d in enumerate(bd):
    tmp[d] = x.a.shape[i]
  return S(np.array(np.broadcast_to(x.a.reshape(tmp), shape)), x.dtype)


@rule('rev')
def _rev(self, eqn, ins):
  return S(np.flip(ins[0].a, eqn.params['dimensions']), ins[0].dtype)


@rule('slice')
def _slice(self, eqn, ins):
  p = eqn.params
  st = p['strides'] or (1,) * len(p['start_indices'])
  sl = tuple(slice(a, b, c) for a, b, c in zip(p['start_indices'], p['limit_indices'], st))
  return wrap(np.array(ins[0].a[sl]), ins[0].dtype)


@rule('concatenate')
def _concat(self, eqn, ins):
  return wrap(np.concatenate([obj(x) for x in ins], axis=eqn.params['dimension']),
              eqn.outvars[0].aval.dtype)


@rule('split')
def _split(self, eqn, ins):
  x = ins[0].a
  ax = eqn.params['axis']
  offs = np.cumsum(eqn.params['sizes'])[:-1]
  return [wrap(np.array(y), ins[0].dtype) for y in np.split(x, offs, axis=ax)]


@rule('pad', 'select_and_gather_add', 'copy', 'copy_p')
def _ids_all(self, eqn, ins):
  if len(ins) == 1:
    return ins[0]
  return by_ids(self, eqn, ins, set(range(len(ins))))


@rule('stop_gradient', 'optimization_barrier', 'sharding_constraint', 'reduce_precision',
      'copy', 'pvary', 'mesh_cast')
def _ident(self, eqn, ins):
  return list(ins)


@rule('convert_element_type')
def _convert(self, eqn, ins):
  x = ins[0]
  new = np.dtype(eqn.params['new_dtype'])
  old = x.dtype
  if new.kind == 'b' and old.kind != 'b':
    return wrap(map1(lambda v: P.bnot(P.eq(v, 0.0)), x), new)
  if new.kind in 'iu' and old.kind == 'f':
    def tr(v):
      if not isinstance(v, Poly):
        return float(int(v))
      lo, hi = P.interval(v)
      if lo >= 0:
        return P.floor(v)
      return P.select(P.ge0(v), P.neg(P.floor(P.neg(v))), P.floor(v))
    return wrap(map1(tr, x), new)
  return wrap(x.a, new)


@rule('bitcast_convert_type')
def _bitcast(self, eqn, ins):
  raise Unsupported('bitcast')


@rule('dynamic_slice')
def _dynslice(self, eqn, ins):
  x, idx = ins[0], ins[1:]
  sizes = eqn.params['slice_sizes']
  if not any(is_s(i) for i in idx):
    st = [int(np.clip(int(np.asarray(i)), 0, n - s))
          for i, n, s in zip(idx, _shape(x), sizes)]
    return wrap(np.array(obj(x)[tuple(slice(a, a + s) for a, s in zip(st, sizes))]), _dt(x))
  xa = obj(x)
  cur = xa
  for d, i in enumerate(idx):
    n = xa.shape[d]
    s = sizes[d]
    iv = obj(i)[()] if is_s(i) else float(np.asarray(i))
    iv = P.vmin(P.vmax(iv, 0.0), float(n - s))
    acc = None
    opts = []
    for k in range(n - s + 1):
      c = P.eq(iv, float(k))
      if not isinstance(c, Poly) and not c:
        continue
      opts.append((c, np.take(cur, range(k, k + s), axis=d)))
    cur = _weighted(opts)
  return wrap(cur, _dt(x))


def _weighted(opts):
  shape = opts[0][1].shape
  out = empty(shape)
  of = out.reshape(-1)
  flats = [(c, o.reshape(-1)) for c, o in opts]
  for i in range(of.size):
    of[i] = P.select_many([(c, o[i]) for c, o in flats])
  return of.reshape(shape)


def _shape(x):
  return x.a.shape if is_s(x) else np.shape(x)


@rule('dynamic_update_slice')
def _dus(self, eqn, ins):
  x, u, idx = ins[0], ins[1], ins[2:]
  xa, ua = np.array(obj(x)), obj(u)
  if any(is_s(i) for i in idx):
    raise Unsupported('dynamic_update_slice with symbolic index')
  st = [int(np.clip(int(np.asarray(i)), 0, n - s))
        for i, n, s in zip(idx, xa.shape, ua.shape)]
  xa[tuple(slice(a, a + s) for a, s in zip(st, ua.shape))] = ua
  return wrap(xa, eqn.outvars[0].aval.dtype)


# -- gather / scatter ------------------------------------------------------------
def _mode(m):
  s = str(m)
  if 'CLIP' in s or 'clip' in s:
    return 'clip'
  if 'FILL' in s or 'fill' in s:
    return 'fill'
  return 'promise'


@rule('gather')
def _gather(self, eqn, ins):
  x, idx = ins
  p = eqn.params
  mode = _mode(p['mode'])
  if is_s(x) and not is_s(idx):
    pool = list(obj(x).reshape(-1))
    ids = np.arange(len(pool), dtype=np.int32).reshape(x.a.shape)
    params = dict(p)
    fill = params.get('fill_value')
    if mode == 'fill':
      params['fill_value'] = -1
    with jax.ensure_compile_time_eval():
      y = np.asarray(eqn.primitive.bind(jnp.asarray(ids), jnp.asarray(idx), **params))
    if fill is None:
      k = x.dtype.kind
      fill = P.NAN if k == 'f' else (1.0 if k == 'b' else float(np.iinfo(x.dtype).min if k == 'i' else np.iinfo(x.dtype).max))
    out = empty(y.shape)
    of = out.reshape(-1)
    for i, k in enumerate(y.reshape(-1).tolist()):
      of[i] = pool[k] if k >= 0 else fill
    return wrap(of.reshape(y.shape), x.dtype)
  # symbolic indices
  dn = p['dimension_numbers']
  xa = obj(x)
  ia = obj(idx)
  sizes = p['slice_sizes']
  ob = tuple(getattr(dn, 'operand_batching_dims', ()) or ())
  ib = tuple(getattr(dn, 'start_indices_batching_dims', ()) or ())
  out_shape = eqn.outvars[0].aval.shape
  batch_dims_out = [d for d in range(len(out_shape)) if d not in dn.offset_dims]
  coll = tuple(dn.collapsed_slice_dims)
  window_dims = [d for d in range(xa.ndim) if d not in coll and d not in ob]
  fill = p.get('fill_value')
  dt = _dt(x)
  if fill is None:
    fill = P.NAN if dt.kind == 'f' else (1.0 if dt.kind == 'b' else float(np.iinfo(dt).min if dt.kind == 'i' else np.iinfo(dt).max))
  out = empty(out_shape)
  for bidx in itertools.product(*[range(out_shape[d]) for d in batch_dims_out]):
    vec = ia[bidx] if ia.ndim > len(bidx) else ia[bidx]
    vec = list(np.atleast_1d(vec))
    start = [0.0] * xa.ndim
    for k, d in enumerate(dn.start_index_map):
      start[d] = vec[k]
    for od, idim in zip(ob, ib):
      # position of idim among batch dims of indices
      start[od] = float(bidx[idim])
    # options per dim
    opts = [(1.0, ())]
    oob = 0.0
    for d in range(xa.ndim):
      n, s = xa.shape[d], sizes[d]
      iv = start[d]
      new = []
      if mode != 'fill':
        iv = P.vmin(P.vmax(iv, 0.0), float(n - s))
      for k in range(n - s + 1):
        c = P.eq(iv, float(k))
        if not isinstance(c, Poly) and not c:
          continue
        for oc, pos in opts:
          new.append((P.band(oc, c), pos + (k,)))
      opts = [(c, q) for c, q in new if isinstance(c, Poly) or c]
    tot = P.addn([c for c, _ in opts]) if opts else 0.0
    rest = P.sub(1.0, tot)
    for woff in itertools.product(*[range(sizes[d]) for d in window_dims]):
      cases = []
      for c, pos in opts:
        q = list(pos)
        for d, o in zip(window_dims, woff):
          q[d] += o
        cases.append((c, xa[tuple(q)]))
      if isinstance(rest, Poly) or rest:
        cases.append((rest, fill))
      val = P.select_many(cases) if len(cases) != 1 or isinstance(cases[0][0], Poly) else cases[0][1]
      oidx = [0] * len(out_shape)
      for d, b in zip(batch_dims_out, bidx):
        oidx[d] = b
      for d, o in zip(dn.offset_dims, woff):
        oidx[d] = o
      out[tuple(oidx)] = P.normalise_special(val)
  return wrap(out, dt)


def _scatter_targets(eqn, xshape, ia, ushape):
  """Yield (update index, list of (cond, operand index))."""
  p = eqn.params
  dn = p['dimension_numbers']
  mode = _mode(p['mode'])
  uwd = tuple(dn.update_window_dims)
  iwd = tuple(dn.inserted_window_dims)
  ob = tuple(getattr(dn, 'operand_batching_dims', ()) or ())
  ib = tuple(getattr(dn, 'scatter_indices_batching_dims', ()) or ())
  sd = [d for d in range(len(ushape)) if d not in uwd]
  window_dims = [d for d in range(len(xshape)) if d not in iwd and d not in ob]
  wsize = [1] * len(xshape)
  for d, u in zip(window_dims, uwd):
    wsize[d] = ushape[u]
  for bidx in itertools.product(*[range(ushape[d]) for d in sd]):
    vec = ia[bidx]
    vec = list(np.atleast_1d(vec))
    start = [0.0] * len(xshape)
    for k, d in enumerate(dn.scatter_dims_to_operand_dims):
      start[d] = vec[k]
    for od, idim in zip(ob, ib):
      start[od] = float(bidx[idim])
    opts = [(1.0, ())]
    for d in range(len(xshape)):
      n, s = xshape[d], wsize[d]
      iv = start[d]
      if mode == 'clip':
        iv = P.vmin(P.vmax(iv, 0.0), float(n - s))
      new = []
      if not isinstance(iv, Poly):
        k = int(iv)
        ks = [k] if 0 <= k <= n - s else []
        new = [(oc, pos + (k,)) for k in ks for oc, pos in opts]
      else:
        for k in range(n - s + 1):
          c = P.eq(iv, float(k))
          if not isinstance(c, Poly) and not c:
            continue
          for oc, pos in opts:
            new.append((P.band(oc, c), pos + (k,)))
      opts = [(c, q) for c, q in new if isinstance(c, Poly) or c]
    for woff in itertools.product(*[range(ushape[u]) for u in uwd]):
      uidx = [0] * len(ushape)
      for d, b in zip(sd, bidx):
        uidx[d] = b
      for d, o in zip(uwd, woff):
        uidx[d] = o
      tg = []
      for c, pos in opts:
        q = list(pos)
        for d, o in zip(window_dims, woff):
          q[d] += o
        tg.append((c, tuple(q)))
      yield tuple(uidx), tg


def _scatter(comb):
  def f(self, eqn, ins):
    x, idx, upd = ins
    out = np.array(obj(x))
    ua = obj(upd)
    ia = obj(idx)
    isadd = comb is P.add
    accs = {}
    for uidx, tg in _scatter_targets(eqn, out.shape, ia, ua.shape):
      u = ua[uidx]
      for c, q in tg:
        if isadd:
          d = accs.get(q)
          if d is None:
            d = accs[q] = {}
            P.acc_add(d, out[q])
          P.acc_mul(d, c, u) if isinstance(c, Poly) else P.acc_add(d, u)
        else:
          cur = out[q]
          out[q] = P.select(c, cur, comb(cur, u))
    if isadd:
      for q, d in accs.items():
        out[q] = P._clean(d)
    return wrap(out, eqn.outvars[0].aval.dtype)
  return f


RULES['scatter'] = _scatter(lambda a, b: b)
RULES['scatter-add'] = RULES['scatter_add'] = _scatter(P.add)
RULES['scatter-mul'] = RULES['scatter_mul'] = _scatter(P.mul)
RULES['scatter-max'] = RULES['scatter_max'] = _scatter(P.vmax)
RULES['scatter-min'] = RULES['scatter_min'] = _scatter(P.vmin)
RULES['scatter-sub'] = RULES['scatter_sub'] = _scatter(P.sub)


# -- elementwise ------------------------------------------------------------------
def _el2(f):
  def r(self, eqn, ins):
    return wrap(map2(f, ins[0], ins[1]), eqn.outvars[0].aval.dtype)
  return r


def _el1(f):
  def r(self, eqn, ins):
    return wrap(map1(f, ins[0]), eqn.outvars[0].aval.dtype)
  return r


def _pow2(a, b):
  if isinstance(b, Poly):
    if not isinstance(a, Poly) and a == 1.0:
      return 1.0
    if not isinstance(a, Poly) and a == 0.0:
      raise Unsupported('0**symbolic')
    return P.exp(P.mul(b, P.log(a)))
  return P.powr(a, b)


def _idiv(a, b):
  if not isinstance(a, Poly) and not isinstance(b, Poly):
    return float(int(a / b)) if abs(a) < 2**52 else float(int(a) // int(b))
  return P.lift(lambda x, y: _idiv0(x, y), (a, b))


def _idiv0(x, y):
  if isinstance(x, Poly) or isinstance(y, Poly):
    lo, hi = P.interval(x)
    if not isinstance(y, Poly) and lo >= 0 and y > 0:
      return P.floor(P.mul(x, 1.0 / y))
    raise Unsupported('integer division of symbolic')
  q = abs(int(x)) // abs(int(y)) if y else -1
  return float(q if (x >= 0) == (y >= 0) else -q)


def _divide(self, eqn, ins):
  dt = np.dtype(eqn.outvars[0].aval.dtype)
  if dt.kind in 'iu':
    return wrap(map2(_idiv, ins[0], ins[1]), dt)
  return wrap(map2(P.div, ins[0], ins[1]), dt)


def _rem(a, b):
  if not isinstance(a, Poly) and not isinstance(b, Poly):
    return math.fmod(a, b)
  def f(x, y):
    if isinstance(x, Poly) or isinstance(y, Poly):
      lo, _ = P.interval(x)
      if not isinstance(y, Poly) and lo >= 0 and y > 0:
        return P.sub(x, P.mul(P.floor(P.mul(x, 1.0 / y)), y))
      raise Unsupported('rem of symbolic')
    return math.fmod(x, y)
  return P.lift(f, (a, b))


def _sign(a):
  if not isinstance(a, Poly):
    return float((a > 0) - (a < 0))
  return P.sub(P.gt0(a), P.gt0(P.neg(a)))


def _logistic(a):
  if not isinstance(a, Poly):
    return 1 / (1 + math.exp(-a)) if a > -700 else 0.0
  return P.inv(P.add(1.0, P.exp(P.neg(a))))


def _round(a):
  if not isinstance(a, Poly):
    return float(round(a))
  return P.floor(P.add(a, 0.5))


def _isfinite(a):
  if not isinstance(a, Poly):
    return 1.0 if math.isfinite(a) else 0.0
  def f(x):
    x = P.absorb(x)
    if not isinstance(x, Poly):
      return 1.0 if math.isfinite(x) else 0.0
    return 1.0
  return P.lift1(f, a)


def _cbrt(a):
  return P.powr(a, 1 / 3) if not isinstance(a, Poly) or P.interval(a)[0] >= 0 else P.uf('cbrt', (a,))


def _log_add_exp_placeholder(*_):
  raise Unsupported('logaddexp')


for _n, _f in {
    'add': P.add, 'add_any': P.add, 'sub': P.sub, 'mul': P.mul, 'max': P.vmax,
    'min': P.vmin, 'pow': _pow2, 'rem': _rem, 'atan2': P.atan2,
    'lt': P.lt, 'le': P.le, 'eq': P.eq,
    'gt': lambda a, b: P.lt(b, a), 'ge': lambda a, b: P.le(b, a),
    'ne': lambda a, b: P.bnot(P.eq(a, b)),
}.items():
  RULES[_n] = _el2(_f)
RULES['div'] = _divide

for _n, _f in {
    'neg': P.neg, 'exp': P.exp, 'log': P.log, 'sqrt': P.sqrt,
    'rsqrt': lambda a: P.inv(P.sqrt(a)), 'abs': P.absval, 'sign': _sign,
    'square': lambda a: P.mul(a, a), 'logistic': _logistic,
    'floor': P.floor, 'ceil': lambda a: P.neg(P.floor(P.neg(a))),
    'round': _round, 'is_finite': _isfinite, 'cbrt': _cbrt,
    'exp2': lambda a: P.exp(P.mul(a, math.log(2.0))),
}.items():
  RULES[_n] = _el1(_f)
for _n in ('sin', 'cos', 'tan', 'tanh', 'asin', 'acos', 'atan', 'sinh', 'cosh',
           'erf', 'log1p', 'expm1', 'lgamma'):
  RULES[_n] = _el1(lambda a, n=_n: P.unary(n, a))
RULES['erfc'] = _el1(lambda a: P.sub(1.0, P.unary('erf', a)))
for _n in ('erf_inv', 'digamma', 'asinh', 'acosh', 'atanh', 'bessel_i0e', 'bessel_i1e'):
  RULES[_n] = _el1(lambda a, n=_n: P.uf(n, (a,)))


@rule('integer_pow')
def _ipow(self, eqn, ins):
  n = eqn.params['y']
  return wrap(map1(lambda a: P.ipow(a, n) if n >= 0 else P.inv(P.ipow(a, -n)), ins[0]),
              eqn.outvars[0].aval.dtype)


@rule('nextafter')
def _nextafter(self, eqn, ins):
  return ins[0]


@rule('and', 'or', 'xor')
def _logic(self, eqn, ins):
  dt = np.dtype(eqn.outvars[0].aval.dtype)
  if dt.kind != 'b':
    if any(not is_s(x) for x in ins):
      k = 0 if is_s(ins[0]) else 1
      op = {'and': np.bitwise_and, 'or': np.bitwise_or, 'xor': np.bitwise_xor}[eqn.primitive.name]
      def f(a, b):
        return P.lift(lambda x, y: _bitop(op, x, y), (a, b)) if isinstance(a, Poly) or isinstance(b, Poly) else _bitop(op, a, b)
      return wrap(map2(f, ins[0], ins[1]), dt)
    raise Unsupported('bitwise op')
  f = {'and': P.band, 'or': P.bor, 'xor': P.bxor}[eqn.primitive.name]
  return wrap(map2(f, ins[0], ins[1]), dt)


def _bitop(op, x, y):
  if isinstance(x, Poly) or isinstance(y, Poly):
    raise Unsupported('bitwise op')
  return float(op(int(x), int(y)))


@rule('not')
def _not(self, eqn, ins):
  dt = np.dtype(eqn.outvars[0].aval.dtype)
  if dt.kind != 'b':
    return wrap(map1(lambda a: P.sub(-1.0, a), ins[0]), dt)
  return wrap(map1(P.bnot, ins[0]), dt)


@rule('select_n')
def _select(self, eqn, ins):
  pred, cases = ins[0], ins[1:]
  dt = eqn.outvars[0].aval.dtype
  shape = eqn.outvars[0].aval.shape
  pa = np.broadcast_to(obj(pred), shape)
  cs = [np.broadcast_to(obj(c), shape) for c in cases]
  out = empty(shape)
  of = out.reshape(-1)
  for i, (p, *vs) in enumerate(zip(pa.flat, *[c.flat for c in cs])):
    if not isinstance(p, Poly):
      of[i] = vs[int(p)]
    elif len(vs) == 2:
      of[i] = P.select(p, vs[0], vs[1])
    else:
      of[i] = P.select_many([(P.eq(p, float(k)), v) for k, v in enumerate(vs)])
  return wrap(of.reshape(shape), dt)


@rule('clamp')
def _clamp(self, eqn, ins):
  lo, x, hi = ins
  shape = eqn.outvars[0].aval.shape
  a = map2(P.vmax, np.broadcast_to(obj(lo), shape), x) if True else None
  return wrap(map2(P.vmin, S_(a), np.broadcast_to(obj(hi), shape)), eqn.outvars[0].aval.dtype)


def S_(a):
  return S(a, np.float64)


_old_obj = obj


def obj(x):  # noqa: F811  accept raw object arrays too
  if isinstance(x, np.ndarray) and x.dtype == object:
    return x
  return _old_obj(x)


# -- reductions -----------------------------------------------------------------
def _reduce(f_all):
  def r(self, eqn, ins):
    x = ins[0]
    axes = tuple(eqn.params['axes'])
    a = obj(x)
    keep = [d for d in range(a.ndim) if d not in axes]
    t = np.transpose(a, keep + list(axes)).reshape([a.shape[d] for d in keep] + [-1])
    out = empty(t.shape[:-1])
    for i in np.ndindex(*out.shape):
      out[i] = f_all(list(t[i]))
    return wrap(out, eqn.outvars[0].aval.dtype)
  return r


def _fold(f, init):
  def g(xs):
    r = init
    for x in xs:
      r = f(r, x)
    return r
  return g


RULES['reduce_sum'] = _reduce(P.addn)
RULES['reduce_prod'] = _reduce(_fold(P.mul, 1.0))
RULES['reduce_max'] = _reduce(_fold(P.vmax, -P.INF))
RULES['reduce_min'] = _reduce(_fold(P.vmin, P.INF))
RULES['reduce_and'] = _reduce(_fold(P.band, 1.0))
RULES['reduce_or'] = _reduce(_fold(P.bor, 0.0))
RULES['reduce_xor'] = _reduce(_fold(P.bxor, 0.0))


def _argred(cmp):
  def r(self, eqn, ins):
    x = ins[0]
    (ax,) = eqn.params['axes']
    a = np.moveaxis(obj(x), ax, -1)
    out = empty(a.shape[:-1])
    for i in np.ndindex(*out.shape):
      xs = list(a[i])
      best, bi = xs[0], 0.0
      for k, v in enumerate(xs[1:], 1):
        c = cmp(best, v)
        bi = P.select(c, bi, float(k))
        best = P.select(c, best, v)
      out[i] = bi
    return wrap(out, eqn.outvars[0].aval.dtype)
  return r


RULES['argmax'] = _argred(lambda b, v: P.lt(b, v))
RULES['argmin'] = _argred(lambda b, v: P.lt(v, b))


def _cum(f):
  def r(self, eqn, ins):
    ax = eqn.params['axis']
    a = np.moveaxis(np.array(obj(ins[0])), ax, -1)
    if eqn.params.get('reverse'):
      a = a[..., ::-1]
    out = empty(a.shape)
    for i in np.ndindex(*a.shape[:-1]):
      acc = None
      for k in range(a.shape[-1]):
        acc = a[i + (k,)] if acc is None else f(acc, a[i + (k,)])
        out[i + (k,)] = acc
    if eqn.params.get('reverse'):
      out = out[..., ::-1]
    return wrap(np.moveaxis(out, -1, ax), eqn.outvars[0].aval.dtype)
  return r


RULES['cumsum'] = _cum(P.add)
RULES['cumprod'] = _cum(P.mul)
RULES['cummax'] = _cum(P.vmax)
RULES['cummin'] = _cum(P.vmin)


@rule('sort')
def _sort(self, eqn, ins):
  """Stable insertion network on the first num_keys operands."""
  ax = eqn.params['dimension']
  nk = eqn.params.get('num_keys', 1)
  arrs = [np.moveaxis(np.array(obj(x)), ax, -1) for x in ins]
  n = arrs[0].shape[-1]
  for i in np.ndindex(*arrs[0].shape[:-1]):
    rows = [[a[i + (k,)] for a in arrs] for k in range(n)]
    for e in range(1, n):
      for k in range(e, 0, -1):
        # swap if rows[k] < rows[k-1]  (strict: stable)
        c = _lexlt(rows[k][:nk], rows[k - 1][:nk])
        a, b = rows[k - 1], rows[k]
        rows[k - 1] = [P.select(c, u, v) for u, v in zip(a, b)]
        rows[k] = [P.select(c, v, u) for u, v in zip(a, b)]
    for k in range(n):
      for a, v in zip(arrs, rows[k]):
        a[i + (k,)] = v
  return [wrap(np.moveaxis(a, -1, ax), v.aval.dtype) for a, v in zip(arrs, eqn.outvars)]


def _lexlt(a, b):
  r = 0.0
  for x, y in reversed(list(zip(a, b))):
    r = P.bor(P.lt(x, y), P.band(P.eq(x, y), r))
  return r


# -- contractions --------------------------------------------------------------
@rule('dot_general')
def _dot(self, eqn, ins):
  x, y = ins
  (lc, rc), (lb, rb) = eqn.params['dimension_numbers']
  a, b = obj(x), obj(y)
  lf = [d for d in range(a.ndim) if d not in lc and d not in lb]
  rf = [d for d in range(b.ndim) if d not in rc and d not in rb]
  bs = [a.shape[d] for d in lb]
  K = int(np.prod([a.shape[d] for d in lc])) if lc else 1
  M = int(np.prod([a.shape[d] for d in lf])) if lf else 1
  N = int(np.prod([b.shape[d] for d in rf])) if rf else 1
  B = int(np.prod(bs)) if bs else 1
  at = np.transpose(a, list(lb) + lf + list(lc)).reshape(B, M, K)
  bt = np.transpose(b, list(rb) + list(rc) + rf).reshape(B, K, N)
  out = empty((B, M, N))
  for i in range(B):
    rows = [[(k, v) for k, v in enumerate(at[i, m]) if isinstance(v, Poly) or v != 0] for m in range(M)]
    for n in range(N):
      col = bt[i, :, n]
      nz = {k: v for k, v in enumerate(col) if isinstance(v, Poly) or v != 0}
      for m in range(M):
        d = {}
        for k, v in rows[m]:
          w = nz.get(k)
          if w is not None:
            P.acc_mul(d, v, w)
        out[i, m, n] = P._clean(d)
  shape = bs + [a.shape[d] for d in lf] + [b.shape[d] for d in rf]
  return wrap(out.reshape(shape), eqn.outvars[0].aval.dtype)


@rule('clz', 'population_count', 'shift_left', 'shift_right_logical',
      'shift_right_arithmetic', 'random_bits', 'threefry2x32', 'fft', 'qr', 'lu',
      'cholesky', 'eigh', 'svd')
def _unsup(self, eqn, ins):
  raise Unsupported(eqn.primitive.name)


@rule('iota')
def _iota(self, eqn, ins):
  raise Unsupported('iota')


@rule('top_k')
def _topk(self, eqn, ins):
  raise Unsupported('top_k')


@rule('select_and_scatter_add', 'reduce_window', 'conv_general_dilated')
def _unsup2(self, eqn, ins):
  raise Unsupported(eqn.primitive.name)


def trace(fn, *args):
  """jaxpr of fn at the given ShapeDtypeStructs (flat list)."""
  return jax.make_jaxpr(fn)(*args)


# -- remaining primitives ---------------------------------------------------------
RULES['log2'] = _el1(lambda a: P.mul(P.log(a), 1 / math.log(2.0)))
RULES['one_minus_square'] = _el1(lambda a: P.sub(1.0, P.mul(a, a)))
RULES['conj'] = RULES['real'] = lambda self, eqn, ins: ins[0]
for _n in ('lt_to', 'le_to', 'eq_to'):
  RULES[_n] = RULES[_n[:2]]
for _n in ('device_put', 'tie', 'stage', 'dce_sink', 'copy_p'):
  RULES.setdefault(_n, _ident)


@rule('stack')
def _stack(self, eqn, ins):
  return wrap(np.stack([obj(x) for x in ins], axis=eqn.params['axis']),
              eqn.outvars[0].aval.dtype)


@rule('unstack')
def _unstack(self, eqn, ins):
  a = np.moveaxis(ins[0].a, eqn.params['axis'], 0)
  outs = []
  for k in range(a.shape[0]):
    r = a[k]
    if not isinstance(r, np.ndarray):
      z = empty(())
      z[()] = r
      r = z
    outs.append(wrap(np.array(r, dtype=object) if r.shape else r, ins[0].dtype))
  return outs


@rule('cumlogsumexp')
def _cumlse(self, eqn, ins):
  ax = eqn.params['axis']
  a = np.moveaxis(map1(P.exp, ins[0]), ax, -1)
  if eqn.params.get('reverse'):
    a = a[..., ::-1]
  out = empty(a.shape)
  for i in np.ndindex(*a.shape[:-1]):
    acc = 0.0
    for k in range(a.shape[-1]):
      acc = P.add(acc, a[i + (k,)])
      out[i + (k,)] = P.log(acc)
  if eqn.params.get('reverse'):
    out = out[..., ::-1]
  return wrap(np.moveaxis(out, -1, ax), eqn.outvars[0].aval.dtype)


@rule('reduce')
def _reduce_generic(self, eqn, ins):
  n = len(ins) // 2
  xs, inits = ins[:n], ins[n:]
  dims = tuple(eqn.params['dimensions'])
  sub = eqn.params['jaxpr']
  outs_shape = eqn.outvars[0].aval.shape
  arrs = []
  for x in xs:
    a = obj(x)
    keep = [d for d in range(a.ndim) if d not in dims]
    arrs.append(np.transpose(a, keep + list(dims)).reshape(list(outs_shape) + [-1]))
  res = [empty(outs_shape) for _ in range(n)]

  def sc(v, dt):
    z = empty(())
    z[()] = v
    return wrap(z, dt)
  dts = [_dt(x) for x in xs]
  for i in np.ndindex(*outs_shape):
    cur = [obj(v)[()] for v in inits]
    for k in range(arrs[0].shape[-1]):
      r = _run_sub(self, sub, [sc(c, d) for c, d in zip(cur, dts)]
                   + [sc(a[i + (k,)], d) for a, d in zip(arrs, dts)])
      cur = [obj(v)[()] for v in r]
    for j in range(n):
      res[j][i] = cur[j]
  return [wrap(r, v.aval.dtype) for r, v in zip(res, eqn.outvars)]


def _generic_ids(self, eqn, ins):
  """Unknown primitive: accept it if it only moves elements around."""
  which = {k for k, x in enumerate(ins) if is_s(x)}
  pool, new1, new2 = [], [], []
  off = 1000003
  for k, x in enumerate(ins):
    if k in which:
      a = obj(x)
      ids = np.arange(len(pool), len(pool) + a.size, dtype=np.int32).reshape(a.shape)
      pool.extend(list(a.reshape(-1)))
      new1.append(jnp.asarray(ids))
      new2.append(jnp.asarray(ids + off))
    else:
      new1.append(jnp.asarray(x))
      new2.append(jnp.asarray(x))
  try:
    with jax.ensure_compile_time_eval():
      bp = eqn.primitive.get_bind_params(eqn.params)
      r1 = eqn.primitive.bind(*new1, **bp)
      r2 = eqn.primitive.bind(*new2, **bp)
  except Exception as e:
    raise Unsupported(f'primitive {eqn.primitive.name}: {e}')
  if not eqn.primitive.multiple_results:
    r1, r2 = [r1], [r2]
  outs = []
  for a, b, v in zip(r1, r2, eqn.outvars):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind not in 'iu' or not (b - a == off).all() or a.min(initial=0) < 0 or a.max(initial=0) >= len(pool):
      raise Unsupported(f'primitive {eqn.primitive.name}')
    out = empty(a.shape)
    of = out.reshape(-1)
    for i, k in enumerate(a.reshape(-1).tolist()):
      of[i] = pool[k]
    outs.append(wrap(of.reshape(a.shape), v.aval.dtype))
  return outs


@rule('custom_linear_solve')
def _cls(self, eqn, ins):
  raise Unsupported('custom_linear_solve')


_fg = find_generic


def find_generic(name, eqn):  # noqa: F811
  return _fg(name, eqn) or _generic_ids
