"""Obligations: property programs over the real code, decided symbolically.

A *program* is a jax-traceable function over named inputs that calls the real
e3x code and returns Claims.  It is (1) traced to a jaxpr and executed
symbolically, each claim becoming solver queries; (2) executed concretely to
replay any counterexample.
"""
from __future__ import annotations

import contextlib
import json
import math
import os
import time
import traceback

import jax
import jax.numpy as jnp
import numpy as np

from . import interp as I
from . import poly as P
from . import solve
from . import icp
from .poly import Poly, INF, Unsupported, Blowup


# -- inputs ------------------------------------------------------------------
class Input:
  dtype = None
  shape = ()

  def build(self, name):
    """-> object array of scalars."""
    raise NotImplementedError

  def sample(self, rng, val, mode):
    """fill val (atom id -> float) for this input's symbols."""
    raise NotImplementedError


def fdtype():
  return jnp.float64 if jax.config.jax_enable_x64 else jnp.float32


def _atom_of(p):
  (m, _), = p.t.items()
  return m[0][0]


class Real(Input):

  def __init__(self, shape=(), lo=-1e6, hi=1e6, nonzero=False, srange=None):
    self.shape = tuple(shape)
    self.lo, self.hi = lo, hi
    self.nonzero = nonzero
    self.srange = srange or (max(lo, -2.0), min(hi, 2.0))
    self.dtype = fdtype()

  def build(self, name):
    a = I.empty(self.shape)
    for i in np.ndindex(*self.shape):
      a[i] = P.ctx().symbol(f'{name}{list(i)}', self.lo, self.hi, self.nonzero)
    self.sym = a
    return a

  def sample(self, rng, val, mode):
    for p in self.sym.flat:
      aid = _atom_of(p)
      if aid in val:
        continue
      lo, hi = self.srange
      if mode == 'wide':
        lo, hi = self.lo, self.hi
      elif mode == 'edge' and rng.random() < 0.5:
        val[aid] = float(rng.choice([x for x in (self.lo, self.hi, 0.0, 1.0, -1.0)
                                     if self.lo <= x <= self.hi]))
        continue
      if mode == 'log' and self.lo >= 0:
        l = max(self.lo, 1e-6)
        val[aid] = float(math.exp(rng.uniform(math.log(l), math.log(self.hi)))) if self.hi > l else self.hi
        continue
      val[aid] = float(rng.uniform(lo, hi))


class UnitVec(Input):
  """(..., 3) array of unit vectors."""

  def __init__(self, shape=(), scale=None, axes_order=(0, 1, 2)):
    self.bshape = tuple(shape)
    self.shape = (*self.bshape, 3)
    self.scale = scale  # None or (lo, hi): vector = n*u
    self.dtype = fdtype()

  def build(self, name):
    c = P.ctx()
    a = I.empty(self.shape)
    self.syms = []
    for i in np.ndindex(*self.bshape):
      u = [c.symbol(f'{name}{list(i)}.{k}', -1.0, 1.0) for k in 'xyz']
      P.CTX.atoms[_atom_of(u[2])].rule = (
          2, P.sub(1.0, P.add(P.mul(u[0], u[0]), P.mul(u[1], u[1]))))
      n = None
      if self.scale is not None:
        n = c.symbol(f'{name}{list(i)}.n', *self.scale)
        for k in range(3):
          a[i + (k,)] = P.mul(n, u[k])
      else:
        for k in range(3):
          a[i + (k,)] = u[k]
      self.syms.append((u, n))
    return a

  def sample(self, rng, val, mode):
    for u, n in self.syms:
      ids = [_atom_of(x) for x in u]
      v = rng.normal(size=3)
      if mode == 'edge':
        v = rng.integers(-1, 2, size=3).astype(float)
      given = [val.get(i) for i in ids]
      if all(g is not None for g in given):
        v = np.array(given)
      elif any(g is not None for g in given):
        v = np.array([g if g is not None else w for g, w in zip(given, v)])
      nv = np.linalg.norm(v)
      v = v / nv if nv > 0 else np.array([0., 0., 1.])
      for i, x in zip(ids, v):
        val[i] = float(x)
      if n is not None:
        i = _atom_of(n)
        if i not in val:
          lo, hi = self.scale
          if mode == 'plain':
            lo, hi = max(lo, 1e-3), min(hi, 1e3)
          val[i] = float(np.exp(rng.uniform(np.log(max(lo, 1e-30)), np.log(hi))))
          if mode == 'wide':
            val[i] = float(rng.choice(self.scale)) or 1e-30


class Angle(Input):
  """Length-2 array (cos t, sin t)."""

  def __init__(self):
    self.shape = (2,)
    self.dtype = fdtype()

  def build(self, name):
    c = P.ctx()
    co = c.symbol(f'{name}.c', -1.0, 1.0)
    si = c.symbol(f'{name}.s', -1.0, 1.0)
    P.CTX.atoms[_atom_of(si)].rule = (2, P.sub(1.0, P.mul(co, co)))
    self.cs = (co, si)
    a = I.empty((2,))
    a[0], a[1] = co, si
    return a

  def sample(self, rng, val, mode):
    i, j = map(_atom_of, self.cs)
    if i in val and j in val:
      t = math.atan2(val[j], val[i])
    elif i in val:
      t = math.acos(max(-1, min(1, val[i])))
    elif j in val:
      t = math.asin(max(-1, min(1, val[j])))
    else:
      t = rng.uniform(-math.pi, math.pi)
      if mode == 'edge':
        t = rng.integers(-2, 3) * math.pi / 2
    val[i], val[j] = math.cos(t), math.sin(t)


class Quat(Input):
  """Unit quaternion (4,)."""

  def __init__(self):
    self.shape = (4,)
    self.dtype = fdtype()

  def build(self, name):
    c = P.ctx()
    q = [c.symbol(f'{name}.{k}', -1.0, 1.0) for k in 'rijk']
    r = 1.0
    for x in q[:3]:
      r = P.sub(r, P.mul(x, x))
    P.CTX.atoms[_atom_of(q[3])].rule = (2, r)
    self.q = q
    a = I.empty((4,))
    for k in range(4):
      a[k] = q[k]
    return a

  def sample(self, rng, val, mode):
    ids = [_atom_of(x) for x in self.q]
    v = rng.normal(size=4)
    if mode == 'edge':
      v = rng.integers(-1, 2, size=4).astype(float)
    given = [val.get(i) for i in ids]
    if all(g is not None for g in given):
      v = np.array(given)
    n = np.linalg.norm(v)
    v = v / n if n > 0 else np.array([1., 0, 0, 0])
    for i, x in zip(ids, v):
      val[i] = float(x)


class Int(Input):

  def __init__(self, shape, values):
    self.shape = tuple(shape)
    self.values = list(values)
    self.dtype = jnp.int32

  def build(self, name):
    a = I.empty(self.shape)
    self.names = {}
    for i in np.ndindex(*self.shape):
      nm = f'{name}{list(i)}'
      a[i] = P.ctx().integer(nm, self.values)
      self.names[i] = nm
    return a

  def sample(self, rng, val, mode):
    for i, nm in self.names.items():
      g = P.CTX.groups.get(nm)
      if g is None:
        continue
      ints = val.setdefault('ints', {})
      if nm in ints:
        v = ints[nm]
      else:
        v = int(rng.choice(self.values))
        ints[nm] = v
      for at in g['atoms']:
        val[at.id] = 1.0 if at.value == v else 0.0


class Bool(Input):

  def __init__(self, shape):
    self.shape = tuple(shape)
    self.dtype = jnp.bool_

  def build(self, name):
    a = I.empty(self.shape)
    for i in np.ndindex(*self.shape):
      a[i] = P.ctx().boolean(f'{name}{list(i)}')
    self.sym = a
    return a

  def sample(self, rng, val, mode):
    for p in self.sym.flat:
      aid = _atom_of(p)
      if aid not in val:
        val[aid] = float(rng.integers(0, 2))


class Const(Input):

  def __init__(self, x, dtype=None):
    self.x = np.asarray(x, dtype=dtype)
    if self.x.dtype == np.float64 and not jax.config.jax_enable_x64:
      self.x = self.x.astype(np.float32)
    if self.x.dtype == np.int64 and not jax.config.jax_enable_x64:
      self.x = self.x.astype(np.int32)
    self.shape = self.x.shape
    self.dtype = self.x.dtype

  def build(self, name):
    return self.x

  def sample(self, rng, val, mode):
    pass


# -- claims ------------------------------------------------------------------
class Claim:
  """kind: eq (|a-b| <= tol), le (a <= b + tol), true (boolean a)."""

  def __init__(self, name, kind, a, b=None, tol=None, where=None):
    self.name, self.kind, self.a, self.b, self.tol, self.where = name, kind, a, b, tol, where


def eq(name, a, b, tol=None, where=None):
  a = jnp.asarray(a)
  b = jnp.asarray(b)
  if a.shape != b.shape:
    raise ShapeViolation(f'{name}: shape {a.shape} instead of {b.shape}')
  return Claim(name, 'eq', a, b, tol, where)


def le(name, a, b, tol=None, where=None):
  return Claim(name, 'le', jnp.asarray(a), jnp.asarray(b), tol, where)


def true(name, a, where=None):
  return Claim(name, 'true', jnp.asarray(a), None, None, where)


class ShapeViolation(Exception):
  """The code returned an array of the wrong shape (or type)."""


def static(name, cond, msg=''):
  """A claim about static facts (shape, dtype)."""
  if not cond:
    raise ShapeViolation(f'{name}: {msg}')


@contextlib.contextmanager
def draws(uniform=None, normal=None, truncated=None):
  """Replaces the values of jax's random draws by given arrays (pools).

  Every draw consumes the next entries of the pool; uniform draws in [0, 1)
  are scaled to the requested interval.
  """
  from jax._src.random import core as rc
  saved = {}
  pos = dict(u=0, n=0, t=0)

  def take(kind, pool, shape):
    n = int(np.prod(shape))
    flat = pool.reshape(-1)
    i = pos[kind]
    if i + n > flat.shape[0]:
      raise Unsupported(f'more random draws than provided ({kind}: {i + n})')
    pos[kind] = i + n
    return flat[i:i + n].reshape(shape)

  def u_stub(key, minval, maxval, shape, dtype):
    u = take('u', uniform, shape).astype(dtype)
    return u * (jnp.asarray(maxval, dtype) - jnp.asarray(minval, dtype)) + jnp.asarray(minval, dtype)

  def n_stub(key, shape, dtype):
    return take('n', normal, shape).astype(dtype)

  def t_stub(key, lower, upper, shape, dtype):
    # the pool stands for draws truncated to (-2, 2)
    lo, hi = jnp.asarray(lower, dtype), jnp.asarray(upper, dtype)
    return take('t', truncated, shape).astype(dtype) * ((hi - lo) / 4) + (lo + hi) / 2

  todo = {}
  if uniform is not None:
    todo['_uniform'] = u_stub
  if normal is not None:
    todo['_normal_real'] = n_stub
    todo['_normal'] = n_stub
  if truncated is not None:
    todo['_truncated_normal'] = t_stub
  try:
    for k, f in todo.items():
      saved[k] = getattr(rc, k)
      setattr(rc, k, f)
    yield pos
  finally:
    for k, f in saved.items():
      setattr(rc, k, f)


_PATH = None


class _Path:

  def __init__(self, script):
    self.script = list(script)
    self.log = []  # (tracer, decision)


def _patched_bool(self):
  if _PATH is None:
    return _ORIG_BOOL(self)
  p = _PATH
  k = len(p.log)
  d = p.script[k] if k < len(p.script) else True
  p.log.append((self, d))
  return d


_ORIG_BOOL = jax.core.Tracer.__bool__
jax.core.Tracer.__bool__ = _patched_bool


def paths(fn, limit=64):
  """Runs python code that branches on traced booleans along every path.

  -> list of (path condition, result); concretely a single (True, result).
  The result is the exception when the code raises on that path.
  """
  global _PATH
  out, todo = [], [[]]
  while todo:
    script = todo.pop()
    if len(out) >= limit:
      raise Blowup('python paths')
    old = _PATH
    _PATH = _Path(script)
    try:
      try:
        r = fn()
      except (ValueError, TypeError) as e:
        if not _PATH.log:
          raise
        r = e
      log = _PATH.log
    finally:
      _PATH = old
    cond = jnp.asarray(True)
    for t, d in log:
      cond = jnp.logical_and(cond, t if d else jnp.logical_not(t))
    out.append((cond, r))
    for k in range(len(script), len(log)):
      todo.append([d for _, d in log[:k]] + [False])
  return out


class Case:
  """One obligation: inputs + program."""

  def __init__(self, name, inputs, prog, tol=1e-6, replay_tol=None, x64=True,
               assume=None, coef_tol=1e-9, z3_timeout=20, max_terms=400000,
               box=1.0, drop=1e-12, lt_solver=False, samples=24, angle_units=None,
               functions=(), vacuity=True, ieee=False):
    self.__dict__.update(locals())
    del self.__dict__['self']


class Result:

  def __init__(self, name):
    self.name = name
    self.status = 'ok'  # ok | violation | inconclusive
    self.detail = ''
    self.replay = None
    self.claims = 0
    self.scalars = 0
    self.nontrivial = 0
    self.symbols = 0
    self.terms = 0
    self.wall = 0.0
    self.stats = {}
    self.prims = {}
    self.eqns = 0

  def as_dict(self):
    return dict(self.__dict__)


def _flatten_claims(claims):
  arrs, meta = [], []
  for c in claims:
    n = [c.a]
    if c.b is not None:
      n.append(c.b)
    if c.where is not None:
      n.append(jnp.asarray(c.where))
    meta.append((c.name, c.kind, c.tol, len(arrs), c.b is not None, c.where is not None))
    arrs.extend(n)
  return arrs, meta


def count_eqns(jaxpr):
  n = 0
  for e in jaxpr.eqns:
    n += 1
    for v in e.params.values():
      for x in (v if isinstance(v, (tuple, list)) else (v,)):
        if hasattr(x, 'jaxpr') and hasattr(x.jaxpr, 'eqns'):
          n += count_eqns(x.jaxpr)
        elif hasattr(x, 'eqns'):
          n += count_eqns(x)
  return n


def run_case(case, seed=1, outdir=None, prop=''):
  t0 = time.time()
  res = Result(case.name)
  solve.STATS = solve.Stats()
  MODELS.clear()
  old = jax.config.jax_enable_x64
  try:
    jax.config.update('jax_enable_x64', bool(case.x64))
    _run(case, res, seed, outdir, prop)
  except (Unsupported, Blowup) as e:
    res.status = 'inconclusive'
    res.detail = f'{type(e).__name__}: {e}'
    # the encoding could not be built: fall back to looking for a witness on
    # the real code only to avoid missing an outright failure
    try:
      hit = _sample_only(case, seed)
      if hit:
        res.status = 'violation'
        res.detail = hit[0]
        res.replay = hit[1]
    except Exception:
      pass
  except Exception:
    res.status = 'inconclusive'
    res.detail = traceback.format_exc()[-1500:]
  finally:
    jax.config.update('jax_enable_x64', old)
  res.stats = solve.STATS.as_dict()
  res.wall = time.time() - t0
  return res


def _concrete_inputs(inputs, built, val):
  out = {}
  cache = {}
  for k, spec in inputs.items():
    a = built[k]
    if not (isinstance(a, np.ndarray) and a.dtype == object):
      out[k] = jnp.asarray(a)
      continue
    x = np.empty(a.shape, dtype=np.float64)
    for i in np.ndindex(*a.shape):
      x[i] = P.evaluate(a[i], val, cache)
    if np.dtype(spec.dtype).kind in 'iu':
      x = np.rint(x)
    out[k] = jnp.asarray(x.astype(spec.dtype))
  return out


def _replay(case, conc):
  """Run the real code; -> list of failing claims (name, detail)."""
  fails = []
  try:
    claims = case.prog(**conc)
  except ShapeViolation as e:
    return [('shape', str(e), float('inf'))]
  except Unsupported:
    raise
  except Exception as e:
    return [('exception', f'{type(e).__name__}: {e}', float('inf'))]
  rt = case.replay_tol
  if rt is None:
    rt = max(case.tol * 0.5, 1e-8 if case.x64 else 2e-4)
  for c in claims:
    a = np.asarray(c.a, dtype=np.float64) if c.kind != 'true' else np.asarray(c.a)
    w = np.broadcast_to(np.asarray(c.where), a.shape) if c.where is not None else np.ones(a.shape, bool)
    tol = rt if c.tol is None else max(c.tol * 0.5, rt if c.tol >= case.tol else c.tol * 0.5)
    if c.kind == 'true':
      bad = ~a.astype(bool) & w
      if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        fails.append((c.name, f'{c.name}{list(i)} is False', 1.0))
      continue
    b = np.asarray(c.b, dtype=np.float64)
    a, b = np.broadcast_arrays(a, b)
    w = np.broadcast_to(w, a.shape)
    scale = 1.0 + np.maximum(np.where(np.isfinite(a), np.abs(a), 0), np.where(np.isfinite(b), np.abs(b), 0))
    if c.kind == 'eq':
      with np.errstate(invalid='ignore'):
        err = np.where((a == b), 0.0, np.abs(a - b))
      bad = ~(err <= tol * scale) & w
    else:
      with np.errstate(invalid='ignore'):
        err = a - b
      bad = ~(err <= tol * scale) & w
    if bad.any():
      i = tuple(int(v) for v in np.argwhere(bad)[0])
      fails.append((c.name, f'{c.name}{list(i)}: got {a[i]!r}, required {"==" if c.kind == "eq" else "<="} {b[i]!r}',
                    float(np.nan_to_num(err[i], nan=1e9))))
  return fails


def _write_replay(case, conc, fails, outdir, prop):
  d = dict(property=prop, case=case.name, x64=bool(case.x64),
           inputs={k: np.asarray(v).tolist() for k, v in conc.items()},
           failures=[f[1] for f in fails[:5]],
           how=f'python -m sx.cli {prop} --replay THIS_FILE')
  os.makedirs(outdir, exist_ok=True)
  fn = ''.join(ch if ch.isalnum() or ch in '-_.' else '_' for ch in case.name)[:100]
  path = os.path.join(outdir, f'{prop}-{fn}.json')
  with open(path, 'w') as f:
    json.dump(d, f, indent=1)
  return path


def _sample_only(case, seed):
  P.reset(coef_tol=case.coef_tol, drop=case.drop, max_terms=case.max_terms)
  rng = np.random.default_rng(seed)
  built = {k: s.build(k) for k, s in case.inputs.items()}
  for t in range(6):
    val = {}
    for k, s in case.inputs.items():
      s.sample(rng, val, ['plain', 'edge', 'wide'][t % 3])
    conc = _concrete_inputs(case.inputs, built, val)
    if case.assume is not None and not bool(np.asarray(case.assume(**conc)).all()):
      continue
    fails = _replay(case, conc)
    if fails:
      return fails[0][1], _write_replay(case, conc, fails, '/verif/evidence/replay', 'x')
  return None


def _run(case, res, seed, outdir, prop):
  P.reset(coef_tol=case.coef_tol, drop=case.drop, max_terms=case.max_terms)
  rng = np.random.default_rng(seed)
  # input dtypes depend on x64: set on construction under the right mode
  for s in case.inputs.values():
    if isinstance(s, (Real, UnitVec, Angle, Quat)):
      s.dtype = fdtype()
    if isinstance(s, Const):
      s.__init__(s.x)
  names = list(case.inputs)
  built = {k: case.inputs[k].build(k) for k in names}
  if case.angle_units:
    case.angle_units(built)
  res.symbols = sum(1 for a in P.CTX.atoms if a.kind in ('sym', 'bool', 'ind'))
  metas = {}

  def flat(*args):
    claims = case.prog(**dict(zip(names, args)))
    arrs, meta = _flatten_claims(claims)
    metas['m'] = meta
    return arrs

  sds = [jax.ShapeDtypeStruct(case.inputs[k].shape, case.inputs[k].dtype) for k in names]
  try:
    cj = jax.make_jaxpr(flat)(*sds)
  except ShapeViolation as e:
    _static_violation(case, res, built, rng, outdir, prop, str(e))
    return
  except Unsupported:
    raise
  except Exception as e:
    # The real code raised during tracing: confirm on concrete inputs.
    _static_violation(case, res, built, rng, outdir, prop,
                      f'{type(e).__name__}: {e}', traceback.format_exc())
    return
  res.eqns = count_eqns(cj.jaxpr)
  it = I.Interp()
  args = []
  for k in names:
    a = built[k]
    if isinstance(a, np.ndarray) and a.dtype == object:
      args.append(I.wrap(a, case.inputs[k].dtype))
    else:
      args.append(np.asarray(a))
  outs = it.closed(cj, args)
  res.prims = it.prims
  assume_p = None
  if case.assume is not None:
    def aflat(*args):
      return [jnp.all(jnp.asarray(case.assume(**dict(zip(names, args)))))]
    aj = jax.make_jaxpr(aflat)(*sds)
    ao, = it.closed(aj, args)
    assume_p = I.obj(ao)[()]
    if not isinstance(assume_p, Poly):
      if not assume_p:
        raise Unsupported('assumption is constantly false (vacuous)')
      assume_p = None
  pend = []
  early = dict(done=False)
  for name, kind, tol, i0, hasb, hasw in metas['m']:
    a = I.obj(outs[i0])
    k = i0 + 1
    b = w = None
    if hasb:
      b = I.obj(outs[k])
      k += 1
    if hasw:
      w = I.obj(outs[k])
    res.claims += 1
    a_b = np.broadcast_arrays(a, b) if b is not None else (a,)
    wb = np.broadcast_to(w, a_b[0].shape) if w is not None else None
    tol = case.tol if tol is None else tol
    items = []
    for idx in np.ndindex(*a_b[0].shape):
      x = a_b[0][idx]
      y = a_b[1][idx] if b is not None else None
      wv = wb[idx] if wb is not None else 1.0
      if not isinstance(wv, Poly) and not wv:
        continue
      res.scalars += 1
      if isinstance(x, Poly) or isinstance(y, Poly):
        res.nontrivial += 1
      res.terms += (len(x.t) if isinstance(x, Poly) else 1) + (len(y.t) if isinstance(y, Poly) else 1)
      items.append((idx, x, y, wv))
    if not early['done'] and kind != 'le' and _suspicious(case, kind, tol, items):
      # some assertion is not an identity: look for a concrete failure on the
      # real code before the expensive refinement
      early['done'] = True
      if _confirm(case, res, built, rng, outdir, prop, [(name, (), 'early', None)], assume_p, n=10):
        return
      res.status, res.detail = 'ok', ''
    bad = _decide_claim(case, name, kind, tol, items, assume_p)
    for (idx, why, cand) in bad:
      pend.append((name, idx, why, cand))
  if not pend:
    if res.nontrivial == 0 and case.vacuity:
      res.detail = 'warning: no symbolic scalar reached a claim'
    return
  _confirm(case, res, built, rng, outdir, prop, pend, assume_p)


def _static_violation(case, res, built, rng, outdir, prop, msg, tb=''):
  val = {}
  for k, s in case.inputs.items():
    s.sample(rng, val, 'plain')
  conc = _concrete_inputs(case.inputs, built, val)
  fails = _replay(case, conc)
  if fails:
    res.status = 'violation'
    res.detail = fails[0][1]
    res.replay = _write_replay(case, conc, fails, outdir, prop)
  else:
    res.status = 'inconclusive'
    res.detail = f'tracing failed ({msg}) but the concrete run passes\n{tb[-1200:]}'


def _scale(p):
  if isinstance(p, Poly):
    return max((abs(c) for c in p.t.values()), default=0.0)
  p = abs(float(p))
  return p if math.isfinite(p) else 0.0


def _suspicious(case, kind, tol, items):
  if kind == 'true':
    return any(isinstance(x, Poly) or not x for _, x, _, _ in items)
  for idx, x, y, wv in items:
    if isinstance(x, Poly) or isinstance(y, Poly):
      r = P.sub(P._fin(x), P._fin(y))
      s = max(1.0, _scale(x), _scale(y))
      if isinstance(r, Poly):
        if sum(abs(c) for c in r.t.values()) > tol * s:
          return True
      elif not abs(r) <= tol * s:
        return True
    elif not (x == y or abs(float(x) - float(y)) <= tol):
      return True
  return False


def _decide_claim(case, name, kind, tol, items, assume_p):
  """-> list of undecided/failed (idx, reason, residual)."""
  bad = []
  if kind == 'eq':
    resid, meta = [], []
    for idx, x, y, wv in items:
      if not isinstance(x, Poly) and not isinstance(y, Poly):
        x, y = float(x), float(y)
        if x == y or (x != x and y != y):
          r = 0.0
        else:
          d = abs(x - y)
          r = d if d == d else INF
      else:
        r = P.sub(P._fin(x), P._fin(y))
      if isinstance(wv, Poly):
        r = P.select(wv, 0.0, r) if isinstance(r, Poly) or r else 0.0
      s = max(1.0, _scale(x), _scale(y))
      if isinstance(r, Poly):
        r = P.mul(r, 1.0 / s) if s != 1.0 else r
      else:
        r = r / s
      resid.append(r)
      meta.append((idx, r, s))
    # batched linear query
    if not resid:
      return bad
    B = 400
    todo = []
    for k in range(0, len(resid), B):
      chunk = resid[k:k + B]
      try:
        ans = solve.linear_query(chunk, tol, case.box)
      except (ValueError, OverflowError):
        ans = 'sat'
      if ans != 'unsat':
        for r, m in zip(chunk, meta[k:k + B]):
          if isinstance(r, Poly):
            one = sum(abs(c) for c in r.t.values())
            if one > tol:
              todo.append(m)
          elif not abs(r) <= tol:
            todo.append(m)
    for idx, r, s in todo[:40]:
      ok, why = _refine_eq(case, r, tol, assume_p)
      if not ok:
        bad.append((idx, why, ('eq', r, tol)))
        if len(bad) >= 3:
          break
    return bad
  if kind == 'true':
    for idx, x, _, wv in items:
      f = P.bnot(x)
      if isinstance(wv, Poly):
        f = P.band(f, wv)
      ok, why = _refute(case, f, assume_p)
      if not ok:
        bad.append((idx, why, ('bool', f, 0.5)))
        if len(bad) >= 3:
          break
    return bad
  if kind == 'le':
    for idx, x, y, wv in items:
      d = P.sub(P._fin(x), P._fin(y))
      d = P.add(d, -tol)
      f = P.gt0(d)
      if isinstance(wv, Poly):
        f = P.band(f, wv)
      ok, why = _refute(case, f, assume_p)
      if not ok:
        bad.append((idx, why, ('bool', f, 0.5)))
        if len(bad) >= 3:
          break
    return bad
  raise AssertionError(kind)


def _clear_denominators(r):
  """Multiply out inv atoms: the numerator vanishes iff r does."""
  for _ in range(8):
    if not isinstance(r, Poly):
      return r
    ex = {}
    for m in r.t:
      for a, e in m:
        at = P.CTX.atoms[a]
        if at.fn == 'inv' and isinstance(e, int) and e > 0:
          ex[a] = max(ex.get(a, 0), e)
        elif at.fn == 'sqrt' and isinstance(e, int) and e < 0:
          ex[a] = min(ex.get(a, 0), e)
    if not ex:
      return r
    a = max(ex, key=lambda k: k)  # latest atom first
    n = ex[a]
    at = P.CTX.atoms[a]
    d = {}
    if at.fn == 'inv':
      p = at.args[0]
      pw = [1.0]
      for _ in range(n):
        pw.append(P.mul(pw[-1], p))
      for m, c in r.t.items():
        e = dict(m).get(a, 0)
        rest = tuple(x for x in m if x[0] != a)
        P.acc_mul(d, Poly({rest: c}), P.as_poly(pw[n - e]) if not isinstance(pw[n - e], Poly) else pw[n - e])
    else:
      f = P.atom_poly(at)
      f = P.ipow(f, -n)
      for m, c in r.t.items():
        e = dict(m).get(a, 0)
        rest = tuple(x for x in m if x[0] != a)
        k = e - n
        P.acc_mul(d, Poly({rest: c}), P.ipow(P.atom_poly(at), k) if k else 1.0)
    r = P._clean(d)
  return r


def _split_cases(r, limit=512):
  """Boolean case split: list of (condition dict, residual)."""
  out = []

  def rec(p, cond):
    if len(out) > limit:
      raise Blowup('case split')
    fb = P.first_bool(p)
    if fb is None:
      out.append((cond, p))
      return
    at = P.CTX.atoms[fb]
    if at.group is not None:
      for v in P.CTX.groups[at.group]['values']:
        rec(P.restrict_group(p, at.group, v), cond + [('g', at.group, v)])
    else:
      rec(P.restrict(p, fb, 1), cond + [('b', fb, 1)])
      rec(P.restrict(p, fb, 0), cond + [('b', fb, 0)])
  rec(r, [])
  return out


def _refine_eq(case, r, tol, assume_p):
  if not isinstance(r, Poly):
    return abs(r) <= tol, f'constant residual {r}'
  try:
    cases = _split_cases(r)
  except Blowup:
    return _full_eq(case, r, tol, assume_p, [])
  for cond, q in cases:
    try:
      q = P.absorb(q)
    except Unsupported:
      pass
    if not isinstance(q, Poly):
      if abs(q) <= tol:
        continue
      if not cond and assume_p is None:
        return False, f'constant residual {q}'
      s = _feasible(case, cond, assume_p)
      if s == 'unsat':
        continue
      return False, f'residual {q} under feasible condition ({s})'
    if sum(abs(c) for c in q.t.values()) <= tol:
      continue
    q2 = _clear_denominators(q)
    if not isinstance(q2, Poly):
      if abs(q2) <= 1e-9:
        continue
    else:
      mx = max(abs(c) for c in q2.t.values())
      ref = max(1.0, _scale(q))
      if solve.linear_query([P.mul(q2, 1.0 / ref)], tol, case.box) == 'unsat':
        continue
    if cond or assume_p is not None:
      s = _feasible(case, cond, assume_p)
      if s == 'unsat':
        continue
    ok, why = _full_eq(case, q, tol, assume_p, cond)
    if not ok:
      return False, why
  return True, ''


def _assert_cond(enc, cond):
  import z3 as z
  for k, a, v in cond:
    if k == 'g':
      # force creation of the group variable
      g = P.CTX.groups[a]
      enc.atom(g['atoms'][0].id)
      enc.s.add(enc.ints[a] == int(v))
    else:
      enc.s.add(enc.atom(a) == v)


def _feasible(case, cond, assume_p):
  lits = [(a, v) for k, a, v in cond if k == 'b'] + solve._conj(assume_p)
  try:
    if solve.lin_feasible(lits) == 'unsat':
      return 'unsat'
  except (OverflowError, ValueError):
    pass
  enc = solve.Enc(int(case.z3_timeout * 1000))
  _assert_cond(enc, cond)
  if assume_p is not None:
    enc.s.add(enc.boolpoly(assume_p))
  return solve.check(enc.s)


LAST_MODEL = {}


def _full_eq(case, q, tol, assume_p, cond):
  """Nonlinear query |q| > tol under cond."""
  enc = solve.Enc(int(case.z3_timeout * 1000))
  _assert_cond(enc, cond)
  if assume_p is not None:
    enc.s.add(enc.boolpoly(assume_p))
  import z3 as z
  e = enc.poly(q)
  enc.s.add(z.Or(e > solve.rv(tol), e < solve.rv(-tol)))
  ans = solve.check(enc.s)
  if ans == 'unsat':
    return True, ''
  if ans == 'sat':
    MODELS.append(enc.model_values())
  if _icp(('eq', q, tol), cond, assume_p):
    return True, ''
  return False, f'nonzero residual ({ans}): {q!r}'[:400]


def _icp(query, cond, assume_p):
  """Interval branch and bound after an inconclusive SMT answer (uninterpreted atoms)."""
  conds = []
  for k, a, v in cond:
    if k == 'b':
      conds.append((P.atom_poly(P.CTX.atoms[a]), v))
  if assume_p is not None:
    conds.append((assume_p, 1))
  b0 = icp.STATS['boxes']
  ans, cands = icp.decide(query, conds)
  solve.STATS.icp += 1
  solve.STATS.icp_boxes += icp.STATS['boxes'] - b0
  for c in cands:
    MODELS.insert(0, (c, {}))
  return ans == 'unsat'


def _refute(case, f, assume_p):
  """Is boolean f impossible?"""
  if not isinstance(f, Poly):
    return (not f), 'constantly violated'
  enc = solve.Enc(int(case.z3_timeout * 1000))
  if assume_p is not None:
    enc.s.add(enc.boolpoly(assume_p))
  enc.s.add(enc.boolpoly(f))
  ans = solve.check(enc.s)
  if ans == 'unsat':
    return True, ''
  if ans == 'sat':
    MODELS.append(enc.model_values())
  if _icp(('bool', f), [], assume_p):
    return True, ''
  return False, f'violable ({ans}): {f!r}'[:400]


MODELS = []


def _confirm(case, res, built, rng, outdir, prop, pend, assume_p, n=None):
  """Turn solver answers into concrete inputs and replay them."""
  tried = 0
  cands = []
  models = list(MODELS)
  MODELS.clear()
  for vals, ints in models[:12]:
    v = {a: x for a, x in vals.items() if P.CTX.atoms[a].kind == 'sym' or P.CTX.atoms[a].fn == 'free'}
    if any(not (P.CTX.atoms[a].lo - 1e-9 <= x <= P.CTX.atoms[a].hi + 1e-9) for a, x in v.items()):
      continue
    v['ints'] = dict(ints)
    cands.append(v)
  for _ in range(case.samples if n is None else n):
    cands.append({})
  modes = ['plain', 'edge', 'wide', 'log']
  best = None
  for t, val in enumerate(cands):
    val = dict(val)
    for k, s in case.inputs.items():
      s.sample(rng, val, modes[t % 4])
    num = {a: v for a, v in val.items() if a != 'ints'}
    conc = _concrete_inputs(case.inputs, built, num)
    if case.assume is not None:
      try:
        if not bool(np.asarray(case.assume(**conc)).all()):
          continue
      except Exception:
        continue
    tried += 1
    fails = _replay(case, conc)
    if fails:
      res.status = 'violation'
      res.detail = fails[0][1]
      res.replay = _write_replay(case, conc, fails, outdir, prop)
      return True
  res.status = 'inconclusive'
  name, idx, why, _ = pend[0]
  res.detail = f'claim {name}{list(idx)} not shown and not refuted by {tried} replays: {why}'


class Params:
  """Parameters of a flax module as symbolic inputs.

  args: arrays or ShapeDtypeStructs for module.init (only shapes matter).
  """

  def __init__(self, module, *args, prefix='par', lo=-1e6, hi=1e6, **kw):
    self.module = module
    old = jax.config.jax_enable_x64
    sds = jax.tree_util.tree_map(lambda a: jax.ShapeDtypeStruct(a.shape, a.dtype), (args, kw))
    tree = jax.eval_shape(lambda k, a, b: module.init(k, *a, **b), jax.random.PRNGKey(0), *sds)
    self.leaves, self.tree = jax.tree_util.tree_flatten(tree)
    self.names = [f'{prefix}{i}' for i in range(len(self.leaves))]
    self.paths = ['/'.join(str(getattr(k, 'key', k)) for k in p) for p, _ in jax.tree_util.tree_flatten_with_path(tree)[0]]
    self.inputs = {n: Real(l.shape, lo, hi) for n, l in zip(self.names, self.leaves)}
    self.size = sum(int(np.prod(l.shape)) for l in self.leaves)

  def tree_of(self, kw):
    return jax.tree_util.tree_unflatten(self.tree, [kw[n] for n in self.names])

  def apply(self, kw, *args, **k):
    return self.module.apply(self.tree_of(kw), *args, **k)
