"""C21: lookup tables do not depend on the history of cached requests."""
import contextlib
import functools
import importlib
import io
import json
import os
import tempfile
import time
import types

import numpy as np
import e3x
from sx import harness as H
from sx import paths as PX
from sx import solve
from sx.poly import Unsupported

z3 = solve.z3

INFO = dict(
    functions=['_generate_clebsch_gordan_lookup_table', '_generate_spherical_harmonics_lookup_table', '_generate_wigner_d_lookup_table',
               '_generate_tensor_conversion_lookup_table', '_load_lookup_table_from_disk', '_save_lookup_table_to_disk'],
    bounds='all histories of up to three requests with symbolic degrees (Clebsch-Gordan and Wigner-D up to 2, harmonics up to 3, tensor conversion up to 3), each with or without a configured cache file, '
           'one or several worker processes, starting from no cache, an empty package table or a package table of lower degree; every coefficient is an unknown real number',
    outside='higher degrees; damaged cache files; concurrent writers; the symbolic computation of a coefficient itself (properties C01 to C04)',
    explanation='The sympy coefficient computation is an uninterpreted function; the real bookkeeping code runs on arrays of z3 terms with an in-memory file; the solver shows that no coefficients make a table entry after the history differ from the entry of a table generated from scratch.',
    assumptions=['numpy.savez_compressed followed by numpy.load returns the stored arrays'])

so3 = 'e3x.so3.'
KINDS = dict(
    cg=('_clebsch_gordan_lut', '_generate_clebsch_gordan_lookup_table', 'clebsch_gordan_cache', 2),
    sh=('_spherical_harmonics_lut', '_generate_spherical_harmonics_lookup_table', 'spherical_harmonics_cache', 3),
    wd=('_wigner_d_lut', '_generate_wigner_d_lookup_table', 'wigner_d_cache', 2),
    tc=('_tensor_conversion_lut', '_generate_tensor_conversion_lookup_table', 'tensor_conversion_cache', 3),
)
UTIL = importlib.import_module(so3 + '_lookup_table_generation_utility')


def mod_of(kind):
  return importlib.import_module(so3 + KINDS[kind][0])


def gen_of(kind):
  f = getattr(mod_of(kind), KINDS[kind][1])
  return getattr(f, '__wrapped__', f)


# ---- symbolic arrays ---------------------------------------------------------


class Idx(np.ndarray):
  """Index list whose entries only count where a guard holds."""
  guard = None

  def __array_finalize__(self, obj):
    self.guard = None


class Arr(np.ndarray):
  """Object array holding unknown reals and plain numbers."""

  def __setitem__(self, i, v):
    g = next((k.guard for k in (i if isinstance(i, tuple) else (i,)) if isinstance(k, Idx) and k.guard is not None), None)
    if g is None:
      return np.ndarray.__setitem__(self, i, v)
    old = np.ndarray.__getitem__(self, i)
    v = np.broadcast_to(np.asarray(v, dtype=object), old.shape)
    new = np.empty(old.shape, dtype=object)
    for k in range(len(g)):
      if g[k] is True or (not isinstance(old[k], PX.Sym) and old[k] == 0 and isinstance(v[k], PX.Sym) and g[k].eq(is_nonzero(v[k].e)) and restores()):
        new[k] = v[k]
      else:
        new[k] = PX.Sym(z3.If(g[k], term(v[k]), term(old[k])), 'real')
    np.ndarray.__setitem__(self, i, new)

  def nonzero(self):
    return nonzero(self)

  def astype(self, dt, **kw):
    return self.copy()


_NZ = {}


def is_nonzero(e):
  k = e.get_id()
  if k not in _NZ:
    _NZ[k] = (e, e != 0)
  return _NZ[k][1]


@functools.lru_cache(None)
def restores():
  """writing back the nonzero values of x into zeros gives x, for every x"""
  x = z3.Real('x')
  return PX.refute(z3.BoolVal(True), z3.If(x != 0, x, 0) != x) is None


def term(x):
  return x.e if isinstance(x, PX.Sym) else solve.rv(float(x))


def arr(x):
  if isinstance(x, np.ndarray) and x.dtype != object:
    return np.asarray(x)
  if not isinstance(x, np.ndarray):
    x = np.asarray(x, dtype=object)
  return x.view(Arr)


def has_unknown(x):
  x = np.asarray(x, dtype=object) if not isinstance(x, np.ndarray) else x
  return x.dtype == object


def nonzero(a):
  if not has_unknown(a):
    return np.nonzero(a)
  pos, guard = [], []
  for i in np.ndindex(*a.shape):
    v = np.ndarray.__getitem__(a, i)
    if isinstance(v, PX.Sym):
      pos.append(i)
      guard.append(is_nonzero(v.e))
    elif v != 0:
      pos.append(i)
      guard.append(True)
  out = []
  for d in range(a.ndim):
    q = np.array([p[d] for p in pos], dtype=np.int64).view(Idx)
    q.guard = guard
    out.append(q)
  return tuple(out)


class File:
  """In-memory binary file."""

  def __init__(self, path):
    self.path = path

  def __enter__(self):
    return self

  def __exit__(self, *a):
    return False

  def close(self):
    pass


class FakePath:
  """A path on an in-memory disk."""

  def __init__(self, disk, name):
    self.disk, self.name = disk, name

  def exists(self):
    return self.name in self.disk
  is_file = exists

  def open(self, mode='r'):
    if 'w' in mode:
      self.disk[self.name] = None  # truncated until something is written
    elif self.name not in self.disk:
      raise FileNotFoundError(self.name)
    return File(self)

  def __str__(self):
    return self.name


class Loaded(dict):

  def __enter__(self):
    return self

  def __exit__(self, *a):
    return False

  files = property(lambda s: list(s))

  def close(self):
    pass


def frozen(v):
  """what a reader gets back for a stored value"""
  if isinstance(v, np.ndarray):
    w = v.copy()
    if isinstance(v, Idx):
      w.guard = v.guard
    return w
  return np.asarray(v)


class NP:
  """numpy for the table modules."""

  def __init__(self, disk):
    self._disk = disk

  def __getattr__(self, n):
    return getattr(np, n)

  def zeros(self, shape, dtype=float, **kw):
    if np.dtype(dtype).kind != 'f':
      return np.zeros(shape, dtype, **kw)
    a = np.empty(shape, dtype=object)
    a.fill(0.0)
    return a.view(Arr)

  def zeros_like(self, a, dtype=None, **kw):
    return self.zeros(np.shape(a), dtype or (float if has_unknown(a) else a.dtype))

  def empty(self, shape, dtype=float, **kw):
    if np.dtype(dtype).kind != 'f':
      return np.zeros(shape, dtype)
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*a.shape):
      a[i] = PX.Sym(z3.FreshReal('junk'), 'real')
    return a.view(Arr)

  def asarray(self, x, dtype=None, **kw):
    if dtype is not None and np.dtype(dtype).kind in 'iu':
      return np.asarray(x, dtype)
    return arr(x)

  def array(self, x, dtype=None, **kw):
    return self.asarray(x, dtype).copy()

  def nonzero(self, a):
    return nonzero(a)

  where = property(lambda s: lambda c, *a: nonzero(c) if not a else np.where(c, *a))

  def argwhere(self, a):
    return np.stack(nonzero(a), -1)

  def savez_compressed(self, f, **kw):
    self._disk[f.path.name] = {k: frozen(v) for k, v in kw.items()}
  savez = savez_compressed

  def load(self, f, *a, **kw):
    if isinstance(f, FakePath):
      c = self._disk.get(f.name)
    elif isinstance(f, File):
      c = self._disk.get(f.path.name)
    else:  # package data
      c = self._disk.get(f.getvalue().decode())
    if c is None:
      raise ValueError('not a table')
    return Loaded({k: frozen(v) for k, v in c.items()})


class Poly:

  def __init__(self, tag, powers):
    self.tag, self.powers = tag, [tuple(p) for p in powers]

  def terms(self):
    return [(p, unknown(*self.tag, *p)) for p in self.powers]


@functools.lru_cache(None)
def unknown(*key):
  return PX.Sym(z3.Real('c_' + '_'.join(str(int(k)) if not isinstance(k, str) else k for k in key)), 'real')


class Rot:

  def __init__(self, p):
    self.p = p


class Pool:

  def __init__(self, *a, **k):
    pass

  def __enter__(self):
    return self

  def __exit__(self, *a):
    return False

  def starmap(self, f, xs, *a, **k):
    return [f(*x) for x in xs]

  def map(self, f, xs, *a, **k):
    return [f(x) for x in xs]

  imap = map

  def close(self):
    pass

  join = close


@contextlib.contextmanager
def symbolic(disk):
  """Puts the table modules on an in-memory disk with unknown coefficients."""
  common = importlib.import_module(so3 + '_common')
  npx = NP(disk)
  mods = {k: mod_of(k) for k in KINDS}
  new = []

  def put(m, n, v):
    new.append((m, n, m.__dict__.get(n, new)))
    m.__dict__[n] = v

  def harmonics(l, m):
    return Poly(('sh', l, m), common._monomial_powers_of_degree(l))

  def dot(p, q):
    l = p.tag[1]
    return Poly(('wd', l, p.tag[2], q.p.tag[2], q.p.tag[1]), mods['wd']._rotation_matrix_powers_of_degree(l))

  def conversion(l):
    n, s = (l + 1) * (l + 2) // 2, 2 * l + 1
    return (np.array([[unknown('s2t', l, i, j) for j in range(n)] for i in range(s)], dtype=object),
            np.array([[unknown('t2s', l, i, j) for j in range(s)] for i in range(n)], dtype=object))
  spx = types.SimpleNamespace(simplify=lambda x: x)
  try:
    for k, m in mods.items():
      put(m, 'np', npx)
      put(m, 'mp', types.SimpleNamespace(Pool=Pool, cpu_count=lambda: 2, get_context=lambda *a: types.SimpleNamespace(Pool=Pool)))
      if 'sp' in m.__dict__:
        put(m, 'sp', spx)
    put(mods['cg'], '_clebsch_gordan', lambda *a: unknown('cg', *a))
    put(mods['sh'], '_spherical_harmonics', harmonics)
    put(mods['wd'], '_spherical_harmonics', harmonics)
    put(mods['wd'], '_rotate_xyz_polynomial', Rot)
    put(mods['wd'], '_polynomial_dot_product', dot)
    put(mods['tc'], '_tensor_conversion_matrices', conversion)
    put(UTIL, 'np', npx)

    def get_data(pkg, name):
      if 'package:' + str(name) not in disk:
        raise FileNotFoundError(name)
      return ('package:' + str(name)).encode()
    put(UTIL, 'pkgutil', types.SimpleNamespace(get_data=get_data))
    yield mods
  finally:
    for m, n, v in reversed(new):
      if v is new:
        m.__dict__.pop(n, None)
      else:
        m.__dict__[n] = v


@contextlib.contextmanager
def caches(**paths):
  names = [KINDS[k][2] for k in KINDS]
  old = {n: getattr(e3x.Config, n) for n in names}
  try:
    for n in names:
      setattr(e3x.Config, n, None)
    yield
  finally:
    for n, v in old.items():
      setattr(e3x.Config, n, v)


def flat(t):
  out = {}
  for k, v in t.items():
    if isinstance(v, (list, tuple)):
      for i, x in enumerate(v):
        out[f'{k}[{i}]'] = np.asarray(x)
    else:
      out[k] = np.asarray(v)
  return out


def package_name(kind):
  m = mod_of(kind)
  return next(str(v) for k, v in vars(m).items() if k.startswith('_') and k.endswith('_lut_path'))


def request(kind, degree, procs, conf, disk):
  attr = KINDS[kind][2]
  setattr(e3x.Config, attr, FakePath(disk, conf) if conf else None)
  return gen_of(kind)(degree, procs)


def prepared(kind, pk):
  """disk whose package table of this kind reaches degree pk (-2: missing)"""
  disk = {}
  if pk == -1:
    t = gen_store(kind, 0)
    disk['package:' + package_name(kind)] = {'max_degree': np.asarray(-1), **{k: v for k, v in t.items() if k != 'max_degree'}}
  elif pk >= 0:
    disk['package:' + package_name(kind)] = gen_store(kind, pk)
  return disk


def gen_store(kind, d):
  """what the code itself writes for degree d when started without a cache"""
  disk = {}
  with symbolic(disk), caches():
    request(kind, d, 1, 'store', disk)
  return disk['store']


def history(steps, pk, kinds):
  """steps: list of (kind index, degree, procs, conf) -> list of tables"""
  disk = {}
  for kind in kinds:
    disk.update(prepared(kind, pk))
  out = []
  with symbolic(disk), caches():
    for ki, d, p, c in steps:
      t = request(kinds[ki], d, p, c, disk)
      out.append((kinds[ki], d, {k: v.copy() for k, v in flat(t).items()}))
  return out


def fresh(kind, d):
  disk = {}
  with symbolic(disk), caches():
    return flat(request(kind, d, 1, None, disk))


# ---- decision -------------------------------------------------------------------


def differs(a, b):
  """z3 condition under which two tables differ (None: never)."""
  if sorted(a) != sorted(b):
    return z3.BoolVal(True)
  bad = []
  for k in a:
    x, y = a[k], b[k]
    if x.shape != y.shape:
      return z3.BoolVal(True)
    for i in np.ndindex(*x.shape):
      p, q = term(x[i]), term(y[i])
      if not p.eq(q):
        bad.append(p != q)
  return z3.Or(bad) if bad else None


def real_history(steps, pk, kinds):
  """Replays on the real code with real files; -> message or None."""
  with tempfile.TemporaryDirectory() as tmp, caches():
    from etils import epath
    real = UTIL.pkgutil

    def table(kind, d, procs, conf):
      setattr(e3x.Config, KINDS[kind][2], epath.Path(os.path.join(tmp, conf)) if conf else None)
      return flat(gen_of(kind)(d, procs))
    package = {}

    def get_data(pkg, name):
      if name not in package:
        raise FileNotFoundError(name)
      return package[name]
    UTIL.pkgutil = types.SimpleNamespace(get_data=get_data)
    try:
      want = {(kinds[ki], d): table(kinds[ki], d, 1, None) for ki, d, _, _ in steps}
      for kind in kinds:
        if pk >= -1:
          table(kind, max(pk, 0), 1, f'pkg-{kind}')
          data = open(os.path.join(tmp, f'pkg-{kind}'), 'rb').read()
          if pk == -1:
            with np.load(io.BytesIO(data)) as z:
              c = dict(z)
            c['max_degree'] = np.asarray(-1)
            b = io.BytesIO()
            np.savez_compressed(b, **c)
            data = b.getvalue()
          package[package_name(kind)] = data
      for n, (ki, d, p, c) in enumerate(steps):
        try:
          t = table(kinds[ki], d, p, c)
        except Exception as e:  # behaviour of the code
          return f'request {n} ({kinds[ki]}, degree {d}) raised {type(e).__name__}: {e}'
        w = want[(kinds[ki], d)]
        if sorted(t) != sorted(w) or any(t[k].shape != w[k].shape or not np.array_equal(t[k], w[k]) for k in w):
          return f'request {n} ({kinds[ki]}, degree {d}) returned other values than a table generated from scratch'
    finally:
      UTIL.pkgutil = real
  return None


CONF = (None, 'a.npz', 'b.npz')


def hist(kinds, pk, n, procs=False, files=2, top=None):
  def build():
    def run(name, seed, outdir):
      res = H.Result(name)
      solve.STATS = solve.Stats()
      t0 = time.time()
      tops = [KINDS[k][3] if top is None else top for k in kinds]
      vs, base = [], []
      for i in range(n):
        k, d, p, c = (z3.Int(f'{x}{i}') for x in ('kind', 'degree', 'procs', 'file'))
        vs += [k, d, p, c]
        base += [k >= 0, k < len(kinds), d >= 0, d <= min(tops), p >= 1, p <= (2 if procs else 1), c >= 0, c < files]
      if len(kinds) > 1:  # the kind of request is fixed by position for the first one
        base.append(vs[0] == 0)
      ref = {(k, d): fresh(k, d) for k in kinds for d in range(min(tops) + 1)}

      def call():
        steps = []
        for i in range(n):
          k, d, p, c = (int(PX.CUR.concretise(v)) if not z3.is_int_value(v) else v.as_long() for v in vs[4 * i:4 * i + 4])
          steps.append((k, d, p, CONF[c] and f'{kinds[k]}-{CONF[c]}'))
        return steps, history(steps, pk, kinds)
      try:
        for pc, (how, val) in PX.explore(call, base=z3.And(base), limit=20000):
          res.claims += 1
          res.eqns += n
          bad = z3.BoolVal(True)
          if how == 'ok':
            conds = [differs(t, ref[(k, d)]) for k, d, t in val[1]]
            res.scalars += sum(sum(x.size for x in t.values()) for _, _, t in val[1])
            conds = [c for c in conds if c is not None]
            bad = z3.Or(conds) if conds else z3.BoolVal(False)
          res.nontrivial += 1
          m = PX.refute(pc, bad)
          if m is None:
            continue
          v = [m.eval(x, model_completion=True).as_long() for x in vs]
          steps = [(v[4 * i], v[4 * i + 1], v[4 * i + 2], CONF[v[4 * i + 3]] and f'{kinds[v[4 * i]]}-{CONF[v[4 * i + 3]]}') for i in range(n)]
          msg = real_history(steps, pk, kinds)
          if msg is None:
            raise Unsupported(f'counterexample {steps} (package degree {pk}) not confirmed: {str(val)[:200] if how == "raise" else "tables differ for some coefficients"}')
          res.status, res.detail = 'violation', f'package table degree {pk}, requests {steps}: {msg}'
          os.makedirs(outdir, exist_ok=True)
          res.replay = os.path.join(outdir, f'C21-{name}.json')
          with open(res.replay, 'w') as f:
            json.dump(dict(property='C21', case=name, inputs=dict(package=pk, kinds=list(kinds), steps=steps), failures=[msg]), f, indent=1)
          break
      except Unsupported as e:
        res.status, res.detail = 'inconclusive', str(e)
      res.symbols = len(vs)
      res.stats = solve.STATS.as_dict()
      res.wall = time.time() - t0
      return res
    return run
  return build


def cases(tier):
  out = []
  deep = tier == 'thorough'
  for k in KINDS:
    t = KINDS[k][3]
    for pk in range(-2, t + 1):
      out.append((f'{k}-package{pk}-3', hist((k,), pk, 3)))
      out.append((f'{k}-package{pk}-2-processes', hist((k,), pk, 2, procs=True, files=3)))
      if deep:
        out.append((f'{k}-package{pk}-4', hist((k,), pk, 4, top=2)))
        out.append((f'{k}-package{pk}-2-high', hist((k,), pk, 2, top=t + 1)))
  ks = list(KINDS)
  for i, a in enumerate(ks):
    for b in ks[i + 1:]:
      out.append((f'{a}-{b}-mixed', hist((a, b), -2, 3, top=1)))
  return out
