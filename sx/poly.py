"""Scalar terms of the symbolic executor.

A scalar is a python number (concrete) or a Poly: a polynomial (Laurent in
positive symbols, real exponents for exponential atoms) with float
coefficients over *atoms*.  Atoms are
  * symbols (the symbolic inputs),
  * booleans (0/1 valued): comparisons of polynomials, free boolean inputs,
    indicators [v = k] of finite-domain integer inputs,
  * applications of non-polynomial functions to polynomials (sqrt, inv, sin,
    max, ...), hash-consed up to a coefficient tolerance (congruence).
Booleans are themselves 0/1-valued Polys, select(p, a, b) is p*b + (1-p)*a, and
non-polynomial functions are pushed inside selects, so the normal form is
canonical for everything that is polynomial modulo the declared relations.
"""
from __future__ import annotations

import math
from collections import defaultdict

INF = float('inf')
NAN = float('nan')


class Unsupported(Exception):
  pass


class Blowup(Exception):
  pass


class Atom:
  __slots__ = ('id', 'kind', 'fn', 'args', 'lo', 'hi', 'name', 'group', 'value',
               'rule', 'nonzero', 'is_bool', 'extra')

  def __init__(self, id, kind, fn=None, args=(), lo=-INF, hi=INF, name=None):
    self.id = id
    self.kind = kind  # 'sym' | 'bool' | 'ind' | 'fn' | 'special'
    self.fn = fn
    self.args = args
    self.lo = lo
    self.hi = hi
    self.name = name
    self.group = None
    self.value = None
    self.rule = None  # (power, Poly): atom**power -> Poly
    self.nonzero = False
    self.is_bool = False
    self.extra = None

  def __repr__(self):
    return self.name or f'{self.fn}#{self.id}'


class Ctx:
  """Atom table of one symbolic run."""

  def __init__(self, coef_tol=1e-9, drop=1e-12, max_terms=400000):
    self.atoms = []
    self.fn_buckets = defaultdict(list)
    self.merge_cache = {}
    self.groups = {}  # name -> dict(values=[...], atoms=[...])
    self.coef_tol = coef_tol
    self.drop = drop
    self.max_terms = max_terms
    self.bool_decisions = {}
    self.lt_hook = None
    self.special_nan = None
    self.special_inf = None
    self.nan_approx = False
    self.assumed = []
    self.stats = defaultdict(int)
    self.fb_cache = {}

  # -- symbols ---------------------------------------------------------------
  def new_atom(self, kind, **kw):
    a = Atom(len(self.atoms), kind, **kw)
    self.atoms.append(a)
    return a

  def symbol(self, name, lo=-1.0, hi=1.0, nonzero=False):
    a = self.new_atom('sym', name=name, lo=lo, hi=hi)
    a.nonzero = nonzero or lo > 0 or hi < 0
    return Poly({((a.id, 1),): 1.0})

  def boolean(self, name):
    a = self.new_atom('bool', name=name, lo=0.0, hi=1.0)
    a.is_bool = True
    a.fn = 'free'
    return Poly({((a.id, 1),): 1.0})

  def integer(self, name, values):
    """Finite-domain integer as a polynomial over indicators."""
    values = list(values)
    if len(values) == 1:
      return values[0]
    atoms = []
    for v in values[:-1]:
      a = self.new_atom('ind', name=f'[{name}={v}]', lo=0.0, hi=1.0)
      a.is_bool = True
      a.group = name
      a.value = v
      atoms.append(a)
    self.groups[name] = dict(values=values, atoms=atoms)
    d = {}
    if values[-1] != 0:
      d[()] = float(values[-1])
    for a in atoms:
      c = float(a.value - values[-1])
      if c:
        d[((a.id, 1),)] = c
    return Poly(d)

  def inf(self):
    if self.special_inf is None:
      self.special_inf = self.new_atom('special', name='INF')
    return Poly({((self.special_inf.id, 1),): 1.0})

  def nan(self):
    if self.special_nan is None:
      self.special_nan = self.new_atom('special', name='NAN')
    return Poly({((self.special_nan.id, 1),): 1.0})


CTX = Ctx()


def reset(**kw):
  global CTX
  CTX = Ctx(**kw)
  return CTX


def ctx():
  return CTX


# -- monomials ------------------------------------------------------------------
def _nexp(e):
  if isinstance(e, int):
    return e
  r = round(e)
  if abs(e - r) < 1e-9:
    return int(r)
  return round(e, 10)


def _merge(m1, m2):
  """Product of two monomials: a monomial (tuple), None (zero) or a Poly."""
  if not m1:
    return m2
  if not m2:
    return m1
  key = (m1, m2)
  c = CTX.merge_cache
  r = c.get(key, 0)
  if r != 0:
    return r
  d = dict(m1)
  touched = []
  for a, e in m2:
    if a in d:
      d[a] = _nexp(d[a] + e)
      touched.append(a)
    else:
      d[a] = e
  res = _canon_mono(d, touched)
  c[key] = res
  return res


def _canon_mono(d, touched):
  atoms = CTX.atoms
  # boolean reductions
  groups = None
  pend = None
  for a in list(d):
    e = d[a]
    if e == 0:
      del d[a]
      continue
    at = atoms[a]
    if at.is_bool:
      if e != 1:
        d[a] = 1
      if at.group is not None:
        if groups is None:
          groups = {}
        if at.group in groups:
          return None
        groups[at.group] = a
    elif at.rule is not None and e >= at.rule[0]:
      pend = a
  if pend is None:
    return tuple(sorted(d.items()))
  at = atoms[pend]
  p, rep = at.rule
  e = d.pop(pend)
  q = int(e // p)
  rem = _nexp(e - q * p)
  if rem != 0:
    d[pend] = rem
  base = _canon_mono(d, None)
  if base is None:
    return None
  out = base if isinstance(base, Poly) else Poly({base: 1.0})
  r = rep if isinstance(rep, Poly) else Poly({(): float(rep)}) if rep else Poly({})
  for _ in range(q):
    out = _pmul(out, r)
  return out


class Poly:
  __slots__ = ('t', '_key', '_iv', '_fb')

  def __init__(self, t):
    self.t = t
    self._key = None
    self._iv = None
    self._fb = 0

  def __repr__(self):
    out = []
    for m, c in list(self.t.items())[:12]:
      out.append(f'{c:+.6g}' + ''.join(
          f'*{CTX.atoms[a]!r}' + (f'^{e}' if e != 1 else '') for a, e in m))
    if len(self.t) > 12:
      out.append(f'... ({len(self.t)} terms)')
    return ' '.join(out) or '0'

  # generic python operators so oracles can be written naturally
  def __add__(self, o):
    return add(self, o)
  __radd__ = __add__

  def __sub__(self, o):
    return add(self, neg(o))

  def __rsub__(self, o):
    return add(o, neg(self))

  def __mul__(self, o):
    return mul(self, o)
  __rmul__ = __mul__

  def __neg__(self):
    return neg(self)

  def __truediv__(self, o):
    return mul(self, inv(o))

  def __rtruediv__(self, o):
    return mul(o, inv(self))

  def __pow__(self, n):
    return ipow(self, n)


def is_sym(x):
  return isinstance(x, Poly)


def _wrap(d):
  """dict -> Poly or float."""
  if not d:
    return 0.0
  if len(d) == 1 and () in d:
    return d[()]
  if len(d) > CTX.max_terms:
    raise Blowup(f'{len(d)} terms')
  return Poly(d)


def _clean(d):
  drop = CTX.drop
  bad = [m for m, c in d.items() if -drop < c < drop]
  for m in bad:
    del d[m]
  return _wrap(d)


def as_poly(x):
  if isinstance(x, Poly):
    return x
  x = float(x)
  if x != x:
    return CTX.nan()
  if x == INF:
    return CTX.inf()
  if x == -INF:
    return neg(CTX.inf())
  return Poly({(): x}) if x else Poly({})


def add(a, b):
  if not isinstance(a, Poly):
    if not isinstance(b, Poly):
      return a + b
    a, b = b, a
  if not isinstance(b, Poly):
    b = float(b)
    if b == 0.0:
      return a
    if not math.isfinite(b):
      return _nonfinite_add(a, b)
    d = dict(a.t)
    c = d.get((), 0.0) + b
    if -CTX.drop < c < CTX.drop:
      d.pop((), None)
    else:
      d[()] = c
    return _wrap(d)
  if len(a.t) < len(b.t):
    a, b = b, a
  d = dict(a.t)
  drop = CTX.drop
  for m, c in b.t.items():
    v = d.get(m)
    if v is None:
      d[m] = c
    else:
      v += c
      if -drop < v < drop:
        del d[m]
      else:
        d[m] = v
  return _wrap(d)


def _nonfinite_add(a, b):
  return add(a, as_poly(b))


def acc_add(d, x, c=1.0):
  """d += c * x (x Poly or number), in place; call _clean afterwards."""
  if isinstance(x, Poly):
    for m, v in x.t.items():
      d[m] = d.get(m, 0.0) + c * v
  else:
    x = float(x)
    if not math.isfinite(x):
      acc_add(d, as_poly(x), c)
    elif x:
      d[()] = d.get((), 0.0) + c * x


def acc_mul(d, x, y, c=1.0):
  """d += c*x*y, in place."""
  if not isinstance(x, Poly):
    x = float(x)
    if not math.isfinite(x):
      acc_add(d, mul(x, y), c)
      return
    if x:
      acc_add(d, y, c * x)
    return
  if not isinstance(y, Poly):
    y = float(y)
    if not math.isfinite(y):
      acc_add(d, mul(x, y), c)
      return
    if y:
      acc_add(d, x, c * y)
    return
  _pmul_into(d, x, y, c)


def _pmul_into(d, x, y, c=1.0):
  merge = _merge
  cache = CTX.merge_cache
  yt = list(y.t.items())
  for m1, c1 in x.t.items():
    cc = c * c1
    for m2, c2 in yt:
      r = cache.get((m1, m2), 0)
      if r == 0:
        r = merge(m1, m2)
      if r is None:
        continue
      v = cc * c2
      if isinstance(r, tuple):
        o = d.get(r)
        d[r] = v if o is None else o + v
      else:
        for m, k in r.t.items():
          d[m] = d.get(m, 0.0) + v * k
    if len(d) > CTX.max_terms:
      raise Blowup(f'{len(d)} terms')


def _pmul(x, y):
  d = {}
  _pmul_into(d, x, y)
  r = _clean(d)
  return r if isinstance(r, Poly) else (Poly({(): r}) if r else Poly({}))


def mul(a, b):
  if not isinstance(a, Poly):
    if not isinstance(b, Poly):
      return a * b
    a, b = b, a
  if not isinstance(b, Poly):
    b = float(b)
    if b == 0.0:
      return 0.0
    if b == 1.0:
      return a
    if not math.isfinite(b):
      return _nonfinite_mul(a, b)
    return _clean({m: c * b for m, c in a.t.items()})
  if len(a.t) < len(b.t):
    a, b = b, a
  d = {}
  _pmul_into(d, a, b)
  return _clean(d)


def _nonfinite_mul(a, b):
  if b != b:
    return NAN
  # split on booleans, then use the sign of the remaining polynomial
  def f(p):
    if not isinstance(p, Poly):
      return p * b
    lo, hi = interval(p)
    if lo > 0:
      return b
    if hi < 0:
      return -b
    return _approx_nan()
  return lift1(f, a)


def _approx_nan():
  """An unknown non-finite value: NaN, which no comparison may look at."""
  CTX.nan_approx = True
  return NAN


def _known(p):
  if not isinstance(p, Poly) and p != p and CTX.nan_approx:
    raise Unsupported('comparison of an unknown non-finite value')
  return p


def neg(a):
  if isinstance(a, Poly):
    return Poly({m: -c for m, c in a.t.items()})
  return -a


def sub(a, b):
  return add(a, neg(b))


def addn(xs):
  d = {}
  for x in xs:
    acc_add(d, x)
  return _clean(d)


def ipow(a, n):
  if not isinstance(a, Poly):
    return a ** n
  if n == 0:
    return 1.0
  if n < 0:
    return ipow(inv(a), -n)
  if n == 1:
    return a
  if len(a.t) == 1:
    (m, c), = a.t.items()
    d = {x: e * n for x, e in m}
    r = _canon_mono(d, None)
    if r is None:
      return 0.0
    if isinstance(r, tuple):
      return _wrap({r: c ** n})
    return mul(r, c ** n)
  h = ipow(a, n // 2)
  h = mul(h, h)
  return mul(h, a) if n % 2 else h


# -- intervals --------------------------------------------------------------
def _imul(a, b, c, d):
  ps = []
  for x in (a, b):
    for y in (c, d):
      if x == 0 or y == 0:
        ps.append(0.0)
      else:
        ps.append(x * y)
  return min(ps), max(ps)


def _ipow(lo, hi, e):
  if isinstance(e, int) and e > 0:
    try:
      if e % 2:
        return _sp(lo, e), _sp(hi, e)
      if lo >= 0:
        return _sp(lo, e), _sp(hi, e)
      if hi <= 0:
        return _sp(hi, e), _sp(lo, e)
      return 0.0, max(_sp(lo, e), _sp(hi, e))
    except OverflowError:
      return -INF, INF
  if lo > 0 or (lo >= 0 and e > 0):
    a = _sp(lo, e)
    b = _sp(hi, e)
    return min(a, b), max(a, b)
  if hi < 0 and isinstance(e, int):
    a, b = _sp(lo, e), _sp(hi, e)
    return min(a, b), max(a, b)
  if lo >= 0:
    return 0.0, INF
  return -INF, INF


def _sp(x, e):
  try:
    if x in (INF, -INF) and e < 0:
      return 0.0
    return float(x) ** e
  except OverflowError:
    return INF if x > 0 or e % 2 == 0 else -INF
  except ZeroDivisionError:
    return INF


def interval(p):
  if not isinstance(p, Poly):
    return (p, p)
  if p._iv is not None:
    return p._iv
  lo = hi = 0.0
  atoms = CTX.atoms
  for m, c in p.t.items():
    l, h = c, c
    for a, e in m:
      at = atoms[a]
      x, y = _ipow(at.lo, at.hi, e)
      l, h = _imul(l, h, x, y)
    lo += l
    hi += h
    if lo == -INF and hi == INF:
      break
  if lo != lo:
    lo = -INF
  if hi != hi:
    hi = INF
  # recognise (a-b)^2-like sums of squares cheaply: all coefs >0, even exps
  if lo < 0 and all(c > 0 and all(isinstance(e, int) and e % 2 == 0 for _, e in m)
                    for m, c in p.t.items()):
    lo = 0.0
  p._iv = (lo, hi)
  return p._iv


# -- boolean splitting ---------------------------------------------------------
def first_bool(p):
  """A boolean atom (or group) occurring in p, else None."""
  if not isinstance(p, Poly):
    return None
  if p._fb != 0:
    return p._fb
  atoms = CTX.atoms
  best = None
  for m in p.t:
    for a, _ in m:
      if atoms[a].is_bool and (best is None or a < best):
        best = a
  p._fb = best
  return best


def has_bool(p):
  return first_bool(p) is not None


def restrict(p, aid, val):
  """Substitute boolean atom aid := val (0/1)."""
  if not isinstance(p, Poly):
    return p
  d = {}
  for m, c in p.t.items():
    hit = False
    for a, _ in m:
      if a == aid:
        hit = True
        break
    if hit:
      if not val:
        continue
      m = tuple(x for x in m if x[0] != aid)
    d[m] = d.get(m, 0.0) + c
  return _clean(d)


def restrict_group(p, gname, value):
  """Substitute integer group := value."""
  if not isinstance(p, Poly):
    return p
  ids = {a.id: (a.value == value) for a in CTX.groups[gname]['atoms']}
  d = {}
  for m, c in p.t.items():
    keep = True
    hit = False
    for a, _ in m:
      if a in ids:
        hit = True
        if not ids[a]:
          keep = False
          break
    if not keep:
      continue
    if hit:
      m = tuple(x for x in m if x[0] not in ids)
    d[m] = d.get(m, 0.0) + c
  return _clean(d)


def indicator(gname, value):
  g = CTX.groups[gname]
  for a in g['atoms']:
    if a.value == value:
      return Poly({((a.id, 1),): 1.0})
  if value == g['values'][-1]:
    d = {(): 1.0}
    for a in g['atoms']:
      d[((a.id, 1),)] = -1.0
    return Poly(d)
  return 0.0


MAX_SPLIT = 4096


def lift(f, args):
  """f(*args) with f pushed inside all boolean selects of args."""
  CTX.stats['lift'] += 1
  budget = [MAX_SPLIT]

  def rec(args):
    fb = None
    for a in args:
      x = first_bool(a)
      if x is not None and (fb is None or x < fb):
        fb = x
    if fb is None:
      budget[0] -= 1
      if budget[0] < 0:
        raise Blowup('too many boolean cases')
      return f(*args)
    at = CTX.atoms[fb]
    if at.group is not None:
      g = at.group
      vals = CTX.groups[g]['values']
      res = [rec([restrict_group(a, g, v) for a in args]) for v in vals]
      # combine: last + sum ind_k (res_k - last)
      k0 = pkey(res[-1])
      if all(pkey(r) == k0 for r in res[:-1]):
        return res[-1]
      return select_many([(indicator(g, v), r) for v, r in zip(vals, res)])
    r1 = rec([restrict(a, fb, 1) for a in args])
    r0 = rec([restrict(a, fb, 0) for a in args])
    if pkey(r1) == pkey(r0):
      return r0
    b = Poly({((fb, 1),): 1.0})
    return select(b, r0, r1)
  return rec(list(args))


def lift1(f, a):
  return lift(f, (a,)) if has_bool(a) else f(a)


def select_many(cases):
  d = {}
  for ind, v in cases:
    acc_mul(d, as_poly(ind) if not isinstance(ind, Poly) else ind,
            v if isinstance(v, Poly) else as_poly(v) if not math.isfinite(v) else v)
  return _clean(d)


def _fin(x):
  if isinstance(x, Poly):
    return x
  x = float(x)
  return x if math.isfinite(x) else as_poly(x)


def select(p, a0, a1):
  """a1 if p else a0."""
  if not isinstance(p, Poly):
    return a1 if p else a0
  a0, a1 = _fin(a0), _fin(a1)
  if pkey(a0) == pkey(a1):
    return a0
  d = {}
  acc_add(d, a0)
  acc_mul(d, p, a1)
  acc_mul(d, p, a0, -1.0)
  r = _clean(d)
  return normalise_special(r)


def normalise_special(p):
  """INF/NAN alone -> python constants."""
  if isinstance(p, Poly) and len(p.t) == 1:
    (m, c), = p.t.items()
    if len(m) == 1:
      a = CTX.atoms[m[0][0]]
      if a.kind == 'special':
        if a.name == 'NAN':
          return NAN
        return INF if c > 0 else -INF
  return p


def absorb(p):
  """After all booleans are fixed: INF + finite -> INF, NAN + x -> NAN."""
  if not isinstance(p, Poly):
    return p
  si = CTX.special_inf
  sn = CTX.special_nan
  if si is None and sn is None:
    return p
  infc = 0.0
  hit = False
  for m, c in p.t.items():
    for a, e in m:
      if sn is not None and a == sn.id:
        return NAN
      if si is not None and a == si.id:
        hit = True
        if len(m) == 1 and e == 1:
          infc += c
        else:
          CTX.nan_approx = True
          return NAN
  if not hit:
    return p
  if infc > 0:
    return INF
  if infc < 0:
    return -INF
  return _approx_nan()


# -- canonical keys ------------------------------------------------------------
def pkey(p):
  if not isinstance(p, Poly):
    p = float(p)
    return ('nan',) if p != p else (round(p, 12) if math.isfinite(p) else p)
  if p._key is None:
    p._key = frozenset((m, _rk(c)) for m, c in p.t.items())
  return p._key


def _rk(c):
  return float(f'{c:.9g}')


def close_polys(p, q, tol):
  """Tolerant equality of normal forms."""
  pt = p.t if isinstance(p, Poly) else ({(): float(p)} if p else {})
  qt = q.t if isinstance(q, Poly) else ({(): float(q)} if q else {})
  for m, c in pt.items():
    v = qt.get(m, 0.0)
    if abs(c - v) > tol * (1 + abs(c)):
      return False
  for m, c in qt.items():
    if m not in pt and abs(c) > tol:
      return False
  return True


def scale_tol(p):
  return CTX.coef_tol


def fn_atom(fn, args, lo=-INF, hi=INF, meta=None):
  """Hash-consed application atom (tolerant congruence)."""
  supp = []
  for a in args:
    if isinstance(a, Poly):
      mx = max((abs(c) for c in a.t.values()), default=0.0)
      thr = CTX.coef_tol * 10 * max(1.0, mx)
      supp.append(frozenset(m for m, c in a.t.items() if abs(c) > thr))
    else:
      supp.append(None)
  key = (fn, tuple(supp), meta)
  b = CTX.fn_buckets[key]
  for at in b:
    if all(close_polys(x, y, CTX.coef_tol) for x, y in zip(at.args, args)):
      return at
  at = CTX.new_atom('fn', fn=fn, args=tuple(args), lo=lo, hi=hi)
  at.extra = meta
  b.append(at)
  return at


def atom_poly(at, e=1):
  return Poly({((at.id, e),): 1.0})


# -- non-polynomial functions ------------------------------------------------
def _is_mono(p):
  return isinstance(p, Poly) and len(p.t) == 1


def _known_nonzero(aid):
  a = CTX.atoms[aid]
  return a.nonzero or a.lo > 0 or a.hi < 0


def inv(a):
  if not isinstance(a, Poly):
    a = float(a)
    if a == 0.0:
      return INF
    return 1.0 / a
  return lift1(_inv0, a)


def _inv0(a):
  a = absorb(a)
  if not isinstance(a, Poly):
    if a == 0.0:
      return INF
    return 1.0 / float(a)
  if len(a.t) == 1:
    (m, c), = a.t.items()
    if all(_known_nonzero(x) or True for x, _ in m):
      # Laurent monomial; atoms that may vanish are recorded as assumptions.
      for x, _ in m:
        if not _known_nonzero(x):
          CTX.stats['div_by_maybe_zero'] += 1
      ok = all(CTX.atoms[x].rule is None or CTX.atoms[x].kind == 'fn' for x, _ in m)
      if ok:
        d = {x: -e for x, e in m}
        # sqrt atoms: s^-1 = s / p  is left as negative power
        r = _canon_mono(d, None)
        if isinstance(r, tuple):
          return Poly({r: 1.0 / c})
  # normalise scale by leading coefficient for congruence
  lead = _lead(a)
  an = mul(a, 1.0 / lead)
  lo, hi = interval(an)
  if lo > 0:
    ilo, ihi = (0.0 if hi == INF else 1 / hi), 1 / lo
  elif hi < 0:
    ilo, ihi = 1 / hi, (0.0 if lo == -INF else 1 / lo)
  else:
    ilo, ihi = -INF, INF
    CTX.stats['div_by_maybe_zero'] += 1
  at = fn_atom('inv', (an,), ilo, ihi)
  at.nonzero = True
  return mul(atom_poly(at), 1.0 / lead)


def _lead(p):
  """A deterministic leading coefficient (structure-determined)."""
  m = max((m for m, c in p.t.items()), key=lambda m: (len(m), m))
  # avoid tiny leading coefs: choose the largest |c| with ties by monomial order
  mx = max(abs(c) for c in p.t.values())
  cands = sorted((m for m, c in p.t.items() if abs(c) > 0.3717 * mx),
                 key=lambda m: (len(m), m))
  return p.t[cands[-1]]


def div(a, b):
  if not isinstance(b, Poly):
    b = float(b)
    if b == 0.0:
      if not isinstance(a, Poly):
        a = float(a)
        return NAN if a == 0 or a != a else math.copysign(INF, a) * math.copysign(1, b)
      return lift1(lambda p: _nonfinite_mul(p, INF) if isinstance(p, Poly)
                   else div(p, 0.0), a)
    if not isinstance(a, Poly):
      return a / b
    return mul(a, 1.0 / b)
  if not has_bool(b):
    return mul(a, _inv0(b)) if not (not isinstance(a, Poly) and a == 0) else 0.0
  return lift(lambda x, y: div(x, y), (a, b))


def sqrt(a):
  if not isinstance(a, Poly):
    return math.sqrt(a) if a >= 0 else NAN
  return lift1(_sqrt0, a)


def _sqrt0(a):
  a = absorb(a)
  if not isinstance(a, Poly):
    return math.sqrt(a) if a >= 0 else NAN
  # negative numerical dust in the constant
  if len(a.t) == 1:
    (m, c), = a.t.items()
    if c > 0:
      out = math.sqrt(c)
      res = Poly({(): out})
      rest = {}
      for x, e in m:
        at = CTX.atoms[x]
        if isinstance(e, int) and e % 2 == 0:
          h = e // 2
          if at.lo >= 0:
            res = mul(res, Poly({((x, h),): 1.0}))
          else:
            ab = absval(Poly({((x, 1),): 1.0}))
            res = mul(res, ipow(ab, h))
        elif at.lo >= 0 and at.fn == 'exp':
          res = mul(res, Poly({((x, _nexp(e / 2)),): 1.0}))
        else:
          rest[x] = e
      if not rest:
        return res
      rp = Poly({tuple(sorted(rest.items())): 1.0})
      if len(rest) < len(m):
        return mul(res, _sqrt_atom(rp))
      return mul(_sqrt_atom(rp), out)
  sq = _perfect_square(a)
  if sq is not None:
    return absval(sq)
  cf = _common_factor(a)
  if cf is not None:
    return mul(sqrt(cf[0]), sqrt(cf[1]))
  return _sqrt_atom(a)


def _common_factor(a):
  """Factor out an even common monomial of non-negative atoms: a = f * rest."""
  ms = list(a.t)
  common = dict(ms[0])
  for m in ms[1:]:
    dm = dict(m)
    common = {x: min(e, dm[x]) for x, e in common.items() if x in dm and
              isinstance(e, int) and isinstance(dm[x], int) and e * dm[x] > 0}
    if not common:
      return None
  f = {}
  for x, e in common.items():
    h = (abs(e) // 2) * 2 * (1 if e > 0 else -1)
    if h and CTX.atoms[x].lo >= 0:
      f[x] = h
  if not f:
    return None
  fm = Poly({tuple(sorted(f.items())): 1.0})
  fi = Poly({tuple(sorted((x, -e) for x, e in f.items())): 1.0})
  return fm, mul(a, fi)


def _perfect_square(a):
  """sqrt of a two/three-term perfect square in one atom: c2 x^2 + c1 x + c0."""
  if len(a.t) != 3:
    return None
  items = sorted(a.t.items(), key=lambda kv: len(kv[0]))
  if items[0][0] != ():
    return None
  (_, c0) = items[0]
  others = items[1:]
  others.sort(key=lambda kv: sum(abs(e) for _, e in kv[0]))
  (m1, c1), (m2, c2) = others
  if len(m1) == 1 and len(m2) == 1 and m1[0][0] == m2[0][0] and m2[0][1] == 2 * m1[0][1]:
    if c2 > 0 and c0 > 0 and abs(c1 * c1 - 4 * c2 * c0) < 1e-9 * max(1, c1 * c1):
      r2 = math.sqrt(c2)
      return Poly({m1: r2, (): c1 / (2 * r2)})
  return None


def _sqrt_atom(a):
  lo, hi = interval(a)
  at = fn_atom('sqrt', (a,), math.sqrt(max(lo, 0.0)) if lo != -INF else 0.0,
               math.sqrt(hi) if hi >= 0 else INF)
  if at.rule is None:
    at.rule = (2, a)
  return atom_poly(at)


def absval(a):
  if not isinstance(a, Poly):
    return abs(a)
  return lift1(_abs0, a)


def _abs0(a):
  a = absorb(a)
  if not isinstance(a, Poly):
    return abs(a)
  lo, hi = interval(a)
  if lo >= 0:
    return a
  if hi <= 0:
    return neg(a)
  if len(a.t) == 1:
    (m, c), = a.t.items()
    if len(m) == 1 and m[0][1] == 1:
      at = fn_atom('abs', (Poly({m: 1.0}),), 0.0, max(abs(lo), abs(hi)) / abs(c))
      if at.rule is None:
        at.rule = (2, mul(Poly({m: 1.0}), Poly({m: 1.0})))
      return mul(atom_poly(at), abs(c))
    r = Poly({(): abs(c)})
    for x, e in m:
      b = CTX.atoms[x]
      if b.lo >= 0 or (isinstance(e, int) and e % 2 == 0):
        r = mul(r, Poly({((x, e),): 1.0}))
      else:
        r = mul(r, ipow(absval(Poly({((x, 1),): 1.0})), e))
    return r
  if _lead(a) < 0:
    a = neg(a)
  at = fn_atom('abs', (a,), 0.0, max(abs(lo), abs(hi)))
  if at.rule is None:
    at.rule = (2, mul(a, a))
  return atom_poly(at)


def exp(a):
  if not isinstance(a, Poly):
    try:
      return math.exp(a)
    except OverflowError:
      return INF
  return lift1(_exp0, a)


def _exp0(a):
  a = absorb(a)
  if not isinstance(a, Poly):
    return exp(a)
  a = _name_long(a)
  const = a.t.get((), 0.0)
  d = {}
  for m, c in a.t.items():
    if m == ():
      continue
    lg = _as_log(m)
    if lg is not None:
      # exp(c*log(u)) = u^c
      u = lg
      r = powr(u, c)
      d.setdefault('mul', []).append(r)
      continue
    mp = Poly({m: 1.0})
    lo, hi = interval(mp)
    at = fn_atom('exp', (mp,), exp(lo) if lo > -INF else 0.0,
                 exp(hi) if hi < INF else INF)
    at.nonzero = True
    d[at.id] = _nexp(c)
  extra = d.pop('mul', [])
  try:
    k = math.exp(const)
  except OverflowError:
    rest = Poly({m: c for m, c in a.t.items() if m != ()})
    if const + interval(rest)[0] > 710.0:
      return INF
    raise Unsupported('exp overflow')
  r = Poly({tuple(sorted(d.items())): k}) if d else k
  for e in extra:
    r = mul(r, e)
  return r


LONG = 8


def _name_long(a):
  """Replaces the non-atomic part of a long exponent by one atom equal to it."""
  if len(a.t) <= LONG:
    return a
  keep, rest = {}, {}
  for m, c in a.t.items():
    if m == () or (len(m) == 1 and CTX.atoms[m[0][0]].fn in ('max', 'min', 'log', 'id')):
      keep[m] = c
    else:
      rest[m] = c
  if len(rest) <= LONG:
    return a
  rest = Poly(rest)
  lead = _lead(rest)
  rest = mul(rest, 1.0 / lead)
  lo, hi = interval(rest)
  at = fn_atom('id', (rest,), lo, hi)
  keep[((at.id, 1),)] = lead
  return Poly(keep)


def _as_log(m):
  if len(m) == 1 and m[0][1] == 1:
    at = CTX.atoms[m[0][0]]
    if at.fn == 'log':
      return at.args[0]
  return None


def log(a):
  if not isinstance(a, Poly):
    return math.log(a) if a > 0 else (-INF if a == 0 else NAN)
  return lift1(_log0, a)


def _log0(a):
  a = absorb(a)
  if not isinstance(a, Poly):
    if a == INF:
      return INF
    return log(a)
  if len(a.t) == 1:
    (m, c), = a.t.items()
    if c > 0 and all(CTX.atoms[x].lo >= 0 for x, _ in m):
      out = math.log(c)
      for x, e in m:
        at = CTX.atoms[x]
        if at.fn == 'exp':
          out = add(out, mul(at.args[0], e))
        elif at.fn == 'sqrt':
          out = add(out, mul(log(at.args[0]), 0.5 * e))
        else:
          xp = Poly({((x, 1),): 1.0})
          la = fn_atom('log', (xp,), math.log(at.lo) if at.lo > 0 else -INF,
                       math.log(at.hi) if at.hi < INF else INF)
          out = add(out, mul(atom_poly(la), e))
      return out
  cf = _common_exp(a)
  if cf is not None:
    return add(log(cf[0]), log(cf[1]))
  lo, hi = interval(a)
  la = fn_atom('log', (a,), math.log(lo) if lo > 0 else -INF,
               math.log(hi) if 0 < hi < INF else INF)
  return atom_poly(la)


def _common_exp(a):
  return None


def powr(a, c):
  """a**c for constant real c."""
  if not isinstance(a, Poly):
    return a ** c
  c = _nexp(float(c))
  if isinstance(c, int):
    return ipow(a, c)
  def f(a):
    a = absorb(a)
    if not isinstance(a, Poly):
      return float(a) ** c
    if abs(c * 2 - round(c * 2)) < 1e-12:
      n = int(round(c * 2))
      s = sqrt(a)
      return ipow(s, n) if n >= 0 else inv(ipow(s, -n))
    if len(a.t) == 1:
      (m, k), = a.t.items()
      if k > 0 and all(CTX.atoms[x].lo >= 0 for x, _ in m):
        return Poly({tuple((x, _nexp(e * c)) for x, e in m): k ** c})
    lo, hi = interval(a)
    at = fn_atom('pow', (a,), 0.0 if lo >= 0 else -INF, INF, meta=_rk(c))
    return atom_poly(at)
  return lift1(f, a)


_UN_EVAL = {
    'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'tanh': math.tanh,
    'asin': math.asin, 'acos': math.acos, 'atan': math.atan,
    'sinh': math.sinh, 'cosh': math.cosh, 'erf': math.erf,
    'log1p': math.log1p, 'expm1': math.expm1, 'floor': math.floor,
    'ceil': math.ceil, 'lgamma': math.lgamma,
}
_UN_RANGE = {
    'sin': (-1, 1), 'cos': (-1, 1), 'tanh': (-1, 1), 'erf': (-1, 1),
    'asin': (-math.pi / 2, math.pi / 2), 'acos': (0, math.pi),
    'atan': (-math.pi / 2, math.pi / 2), 'cosh': (1, INF),
}
_ODD = {'sin', 'tanh', 'asin', 'atan', 'sinh', 'erf', 'tan', 'erf_inv'}
_EVEN = {'cos', 'cosh'}


def unary(fn, a):
  """Elementary function as congruence-closed atom."""
  if fn == 'log1p':
    return log(add(a, 1.0)) if isinstance(a, Poly) else _UN_EVAL[fn](a)
  if fn == 'expm1':
    return sub(exp(a), 1.0) if isinstance(a, Poly) else _UN_EVAL[fn](a)
  if not isinstance(a, Poly):
    if a in (INF, -INF) and fn in ('tanh', 'erf'):
      return math.copysign(1.0, a)
    return _UN_EVAL[fn](a)
  return lift1(lambda x: _unary0(fn, x), a)


def _unary0(fn, a):
  a = absorb(a)
  if not isinstance(a, Poly):
    return unary(fn, a)
  if fn in ('sin', 'cos'):
    return _trig(fn, a)
  if fn == 'tanh':
    # (1 - e^-2a) / (1 + e^-2a)
    e = exp(mul(a, -2.0))
    return mul(sub(1.0, e), inv(add(1.0, e)))
  if fn == 'sinh':
    return mul(sub(exp(a), exp(neg(a))), 0.5)
  if fn == 'cosh':
    return mul(add(exp(a), exp(neg(a))), 0.5)
  if fn == 'tan':
    return mul(_trig('sin', a), inv(_trig('cos', a)))
  sgn = 1.0
  if fn in _ODD and _lead(a) < 0:
    a, sgn = neg(a), -1.0
  elif fn in _EVEN and _lead(a) < 0:
    a = neg(a)
  lo, hi = _UN_RANGE.get(fn, (-INF, INF))
  if fn in ('acos', 'asin', 'atan', 'erf'):
    x, y = interval(a)
    if fn in ('acos', 'asin'):
      x, y = max(x, -1.0), min(y, 1.0)
    if x <= y:
      g = {'acos': math.acos, 'asin': math.asin, 'atan': math.atan, 'erf': math.erf}[fn]
      v = sorted((g(x), g(y)))
      lo, hi = max(lo, v[0] - 1e-12 if v[0] != 0 else 0.0), min(hi, v[1] + 1e-12 if v[1] != 0 else 0.0)
  at = fn_atom(fn, (a,), lo, hi)
  return mul(atom_poly(at), sgn)


# trigonometry: angles are linear combinations of monomials; each monomial m
# gets a unit u (declared or first seen); sin/cos of integer multiples expand to
# polynomials in sin(u m), cos(u m).
TRIG_UNITS = {}


def declare_angle(sym, unit, c=None, s=None):
  """Declare that multiples of unit*sym expand (sym: Poly symbol)."""
  (m, _), = sym.t.items()
  CTX.fb_cache.setdefault('trig', {})[m] = float(unit)


def _trig(fn, a):
  trig = CTX.fb_cache.setdefault('trig', {})
  const = a.t.get((), 0.0)
  parts = []
  for m, c in sorted(a.t.items(), key=lambda kv: kv[0]):
    if m == ():
      continue
    # inverse functions
    at = CTX.atoms[m[0][0]] if len(m) == 1 and m[0][1] == 1 else None
    u = trig.get(m)
    if u is None:
      u = abs(c)
      trig[m] = u
    k = c / u
    kr = round(k)
    if abs(k - kr) > 1e-9 or abs(kr) > 64:
      # not an integer multiple: own atom
      return _trig_plain(fn, a)
    parts.append((m, u, int(kr), at))
  # complex number product  (cos + i sin)
  cr, ci = math.cos(const), math.sin(const)
  if abs(cr) < 1e-15:
    cr = 0.0
  if abs(ci) < 1e-15:
    ci = 0.0
  re, im = cr, ci
  for m, u, k, at in parts:
    cb, sb = _trig_base(m, u, at)
    ar, ai = _cpow(cb, sb if k >= 0 else neg(sb), abs(k))
    re, im = (sub(mul(re, ar), mul(im, ai)), add(mul(re, ai), mul(im, ar)))
  return re if fn == 'cos' else im


def _cpow(c, s, k):
  re, im = 1.0, 0.0
  br, bi = c, s
  while k:
    if k & 1:
      re, im = (sub(mul(re, br), mul(im, bi)), add(mul(re, bi), mul(im, br)))
    k >>= 1
    if k:
      br, bi = (sub(mul(br, br), mul(bi, bi)), mul(mul(br, bi), 2.0))
  return re, im


def _trig_base(m, u, at):
  key = ('trigbase', m)
  r = CTX.fb_cache.get(key)
  if r is not None:
    return r
  if at is not None and abs(u - 1.0) < 1e-12 and at.fn in ('acos', 'asin', 'atan', 'atan2'):
    x = at.args[0]
    if at.fn == 'acos':
      r = (x, sqrt(sub(1.0, mul(x, x))))
    elif at.fn == 'asin':
      r = (sqrt(sub(1.0, mul(x, x))), x)
    elif at.fn == 'atan':
      d = inv(sqrt(add(1.0, mul(x, x))))
      r = (d, mul(x, d))
    else:
      y, x = at.args
      d = inv(sqrt(add(mul(x, x), mul(y, y))))
      r = (mul(x, d), mul(y, d))
    CTX.fb_cache[key] = r
    return r
  arg = Poly({m: u})
  lo, hi = interval(arg)
  cl, ch = cos_range(lo, hi)
  sl, sh = cos_range(lo - math.pi / 2, hi - math.pi / 2)
  ca = fn_atom('cos', (arg,), cl, ch)
  sa = fn_atom('sin', (arg,), sl, sh)
  cp, sp = atom_poly(ca), atom_poly(sa)
  if sa.rule is None:
    sa.rule = (2, sub(1.0, mul(cp, cp)))
  r = (cp, sp)
  CTX.fb_cache[key] = r
  return r


def cos_range(lo, hi):
  """Range of cos on [lo, hi] (slightly widened)."""
  if not (math.isfinite(lo) and math.isfinite(hi)) or hi - lo >= 2 * math.pi:
    return -1.0, 1.0
  v = [math.cos(lo), math.cos(hi)]
  a, b = min(v), max(v)
  k = math.ceil((lo - 1e-9) / math.pi)
  while k * math.pi <= hi + 1e-9:
    if k % 2:
      a = -1.0
    else:
      b = 1.0
    k += 1
  a = 0.0 if abs(a) < 1e-9 else max(-1.0, a - 1e-12)
  b = 0.0 if abs(b) < 1e-9 else min(1.0, b + 1e-12)
  return a, b


def _trig_plain(fn, a):
  sgn = 1.0
  if _lead(a) < 0:
    a = neg(a)
    if fn == 'sin':
      sgn = -1.0
  ca = fn_atom('cos', (a,), -1.0, 1.0)
  sa = fn_atom('sin', (a,), -1.0, 1.0)
  if sa.rule is None:
    cp = atom_poly(ca)
    sa.rule = (2, sub(1.0, mul(cp, cp)))
  return mul(atom_poly(sa if fn == 'sin' else ca), sgn)


def uf(fn, args, meta=None, lo=-INF, hi=INF):
  """Uninterpreted application, pushed through selects."""
  if all(not isinstance(a, Poly) for a in args):
    raise Unsupported(f'uf {fn} on constants')
  def f(*xs):
    xs = [absorb(x) for x in xs]
    at = fn_atom(fn, tuple(xs), lo, hi, meta=meta)
    return atom_poly(at)
  return lift(f, args)


def atan2(y, x):
  if not isinstance(y, Poly) and not isinstance(x, Poly):
    return math.atan2(y, x)
  def f(y, x):
    y, x = absorb(y), absorb(x)
    if not isinstance(y, Poly) and not isinstance(x, Poly):
      return math.atan2(y, x)
    return atom_poly(fn_atom('atan2', (y, x), -math.pi, math.pi))
  return lift(f, (y, x))


# -- comparisons -----------------------------------------------------------
def gt0(p):
  """Boolean (p > 0)."""
  if not isinstance(p, Poly):
    return bool(p > 0)
  return lift1(_gt00, p)


def _dominance(p):
  """(lo, hi) of p from max(...) >= each argument, min(...) <= each argument."""
  lo, hi = interval(p)
  for m, c in list(p.t.items()):
    if len(m) != 1 or m[0][1] != 1:
      continue
    at = CTX.atoms[m[0][0]]
    if at.fn not in ('max', 'min'):
      continue
    for arg in at.args:
      # p = c*(max - arg) + q  with q = p - c*max + c*arg
      q = add(sub(p, Poly({m: c})), mul(arg, c))
      ql, qh = interval(q) if isinstance(q, Poly) else (q, q)
      if (c > 0) == (at.fn == 'max'):
        lo = max(lo, ql)
      else:
        hi = min(hi, qh)
  return lo, hi


def _gt00(p):
  p = _known(absorb(p))
  if not isinstance(p, Poly):
    return 1.0 if p > 0 else 0.0
  lo, hi = _dominance(p)
  if lo > 0:
    return 1.0
  if hi <= 0:
    return 0.0
  # strip positive common factors
  p = _strip_pos(p)
  lead = abs(_lead(p))
  p = mul(p, 1.0 / lead)
  if _lead(p) < 0:
    # p > 0  <=>  not (-p >= 0)
    q = neg(p)
    return sub(1.0, _cmp_atom('ge0', q))
  return _cmp_atom('gt0', p)


def _strip_pos(p):
  ms = list(p.t)
  common = dict(ms[0])
  for m in ms[1:]:
    dm = dict(m)
    common = {x: (min(e, dm[x]) if e > 0 else max(e, dm[x])) for x, e in common.items()
              if x in dm and e * dm[x] > 0}
    if not common:
      return p
  f = {x: -e for x, e in common.items() if CTX.atoms[x].lo > 0}
  if not f:
    return p
  r = mul(p, Poly({tuple(sorted(f.items())): 1.0}))
  return r if isinstance(r, Poly) else p


def _cmp_atom(kind, p):
  at = fn_atom(kind, (p,), 0.0, 1.0)
  if not at.is_bool:
    at.is_bool = True
    at.kind = 'bool'
  if CTX.lt_hook is not None and at.extra is None:
    r = CTX.lt_hook(at)
    at.extra = '?' if r is None else r
  if at.extra is True:
    return 1.0
  if at.extra is False:
    return 0.0
  return atom_poly(at)


def ge0(p):
  if not isinstance(p, Poly):
    return bool(p >= 0)
  return lift1(_ge00, p)


def _ge00(p):
  p = _known(absorb(p))
  if not isinstance(p, Poly):
    return 1.0 if p >= 0 else 0.0
  lo, hi = _dominance(p)
  if lo >= 0:
    return 1.0
  if hi < 0:
    return 0.0
  p = _strip_pos(p)
  p = mul(p, 1.0 / abs(_lead(p)))
  if _lead(p) < 0:
    q = neg(p)
    return sub(1.0, _cmp_atom('gt0', q))
  return _cmp_atom('ge0', p)


def eq0(p):
  if not isinstance(p, Poly):
    return bool(p == 0)
  return lift1(_eq00, p)


def _eq00(p):
  p = _known(absorb(p))
  if not isinstance(p, Poly):
    return 1.0 if p == 0 else 0.0
  lo, hi = interval(p)
  if lo > 0 or hi < 0:
    return 0.0
  p = mul(p, 1.0 / _lead(p))
  return _cmp_atom('eq0', p)


def lt(a, b):
  return gt0(_diff(b, a))


def le(a, b):
  return ge0(_diff(b, a))


def eq(a, b):
  return eq0(_diff(a, b))


def _diff(a, b):
  if not isinstance(a, Poly) and not isinstance(b, Poly):
    a, b = float(a), float(b)
    if a == b:
      return 0.0
    return a - b
  return sub(_fin(a), _fin(b))


def bnot(p):
  if not isinstance(p, Poly):
    return 0.0 if p else 1.0
  return sub(1.0, p)


def band(a, b):
  if not isinstance(a, Poly):
    return b if a else 0.0
  if not isinstance(b, Poly):
    return a if b else 0.0
  if len(a.t) * len(b.t) > 256:
    # name large boolean expressions instead of multiplying them out
    if len(a.t) > 16:
      a = named_bool(a)
    if len(b.t) > 16:
      b = named_bool(b)
    if not isinstance(a, Poly) or not isinstance(b, Poly):
      return band(a, b)
  return mul(a, b)


def named_bool(p):
  """A boolean atom equal to the boolean polynomial p."""
  return _cmp_atom('eq0', sub(1.0, p))


def bor(a, b):
  return bnot(band(bnot(a), bnot(b)))


def bxor(a, b):
  if not isinstance(a, Poly):
    return bnot(b) if a else b
  if not isinstance(b, Poly):
    return bnot(a) if b else a
  return sub(add(a, b), mul(mul(a, b), 2.0))


def vmax(a, b):
  return _maxmin('max', a, b)


def vmin(a, b):
  return _maxmin('min', a, b)


def _maxmin(kind, a, b):
  if not isinstance(a, Poly) and not isinstance(b, Poly):
    if a != a or b != b:
      return NAN
    return max(a, b) if kind == 'max' else min(a, b)
  return lift(lambda x, y: _maxmin0(kind, x, y), (a, b))


def _maxmin0(kind, a, b):
  a, b = _known(absorb(a)), _known(absorb(b))
  if not isinstance(a, Poly) and not isinstance(b, Poly):
    return _maxmin(kind, a, b)
  for x, y in ((a, b), (b, a)):
    if not isinstance(x, Poly):
      if x == -INF:
        return y if kind == 'max' else x
      if x == INF:
        return x if kind == 'max' else y
      if x != x:
        return x
  d = sub(a, b)
  lo, hi = interval(d)
  if lo >= 0:
    return a if kind == 'max' else b
  if hi <= 0:
    return b if kind == 'max' else a
  # flatten
  items = []
  for x in (a, b):
    flat = None
    if isinstance(x, Poly) and len(x.t) == 1:
      (m, c), = x.t.items()
      if len(m) == 1 and m[0][1] == 1 and c == 1.0:
        at = CTX.atoms[m[0][0]]
        if at.fn == kind:
          flat = at.args
    items.extend(flat if flat is not None else (x,))
  # dedupe & sort
  uniq = []
  seen = set()
  for x in items:
    k = pkey(x)
    if k not in seen:
      seen.add(k)
      uniq.append(x)
  if len(uniq) == 1:
    return uniq[0]
  uniq.sort(key=_skey)
  los = [interval(x)[0] for x in uniq]
  his = [interval(x)[1] for x in uniq]
  if kind == 'max':
    at = fn_atom('max', tuple(uniq), max(los), max(his))
  else:
    at = fn_atom('min', tuple(uniq), min(los), min(his))
  return atom_poly(at)


def _skey(x):
  if not isinstance(x, Poly):
    return (0, (), float(x))
  return (1, tuple(sorted(x.t)), tuple(x.t[m] for m in sorted(x.t)))


def floor(a):
  if not isinstance(a, Poly):
    return float(math.floor(a))
  def f(p):
    p = absorb(p)
    if not isinstance(p, Poly):
      return float(math.floor(p)) if math.isfinite(p) else p
    lo, hi = interval(p)
    if math.isfinite(lo) and math.floor(lo) == math.floor(hi):
      return float(math.floor(lo))
    return atom_poly(fn_atom('floor', (p,), math.floor(lo) if math.isfinite(lo) else lo,
                             math.floor(hi) if math.isfinite(hi) else hi))
  return lift1(f, a)


# -- evaluation at a concrete valuation ---------------------------------------
def evaluate(p, val, cache=None):
  """Numeric value of p; val: atom id -> float for sym/bool/ind atoms."""
  if cache is None:
    cache = {}
  if not isinstance(p, Poly):
    return float(p)
  tot = 0.0
  for m, c in p.t.items():
    v = c
    for a, e in m:
      x = eval_atom(a, val, cache)
      if x == 0.0 and e < 0:
        return NAN
      try:
        v *= x ** e
      except OverflowError:
        return NAN
      if isinstance(v, complex):
        return NAN
    tot += v
  return tot


def eval_atom(aid, val, cache):
  if aid in val:
    return val[aid]
  if aid in cache:
    return cache[aid]
  at = CTX.atoms[aid]
  if at.kind == 'special':
    r = INF if at.name == 'INF' else NAN
  elif at.fn is None:
    raise KeyError(f'no value for {at}')
  else:
    xs = [evaluate(x, val, cache) for x in at.args]
    r = eval_fn(at.fn, xs, at.extra)
  cache[aid] = r
  return r


def eval_fn(fn, xs, meta=None):
  x = xs[0]
  try:
    if fn == 'id':
      return x
    if fn == 'inv':
      return 1.0 / x if x else INF
    if fn == 'sqrt':
      return math.sqrt(max(x, 0.0)) if x > -1e-9 else NAN
    if fn == 'abs':
      return abs(x)
    if fn == 'exp':
      return math.exp(x)
    if fn == 'log':
      return math.log(x) if x > 0 else (-INF if x == 0 else NAN)
    if fn == 'pow':
      return x ** meta
    if fn == 'max':
      return max(xs)
    if fn == 'min':
      return min(xs)
    if fn == 'gt0':
      return 1.0 if x > 0 else 0.0
    if fn == 'ge0':
      return 1.0 if x >= 0 else 0.0
    if fn == 'eq0':
      return 1.0 if x == 0 else 0.0
    if fn == 'atan2':
      return math.atan2(*xs)
    if fn in _UN_EVAL:
      return float(_UN_EVAL[fn](x))
  except (OverflowError, ValueError, ZeroDivisionError):
    return NAN
  raise Unsupported(f'eval {fn}')


def atoms_of(p, seen=None):
  """All atom ids reachable from p."""
  if seen is None:
    seen = set()
  if isinstance(p, Poly):
    for m in p.t:
      for a, _ in m:
        if a not in seen:
          seen.add(a)
          at = CTX.atoms[a]
          for x in at.args:
            atoms_of(x, seen)
          if at.rule is not None and isinstance(at.rule[1], Poly):
            atoms_of(at.rule[1], seen)
  return seen
