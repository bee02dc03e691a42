"""SMT back end: deciding residuals with z3."""
from __future__ import annotations

import math
import os
import sys
import time
from fractions import Fraction

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
  sys.path.append(_VT)
import z3  # noqa: E402

from . import poly as P  # noqa: E402
from .poly import Poly, INF  # noqa: E402


class Stats:

  def __init__(self):
    self.queries = 0
    self.unsat = 0
    self.sat = 0
    self.unknown = 0
    self.time = 0.0
    self.icp = 0
    self.icp_boxes = 0

  def add(self, other):
    for k in ('queries', 'unsat', 'sat', 'unknown', 'time', 'icp', 'icp_boxes'):
      setattr(self, k, getattr(self, k) + (other[k] if isinstance(other, dict) else getattr(other, k)))

  def as_dict(self):
    return dict(queries=self.queries, unsat=self.unsat, sat=self.sat,
                unknown=self.unknown, time=self.time, icp=self.icp,
                icp_boxes=self.icp_boxes)


STATS = Stats()


def check(solver):
  t = time.time()
  r = solver.check()
  STATS.time += time.time() - t
  STATS.queries += 1
  s = str(r)
  if s == 'unsat':
    STATS.unsat += 1
  elif s == 'sat':
    STATS.sat += 1
  else:
    STATS.unknown += 1
  return s


def rv(c):
  f = Fraction(float(c))
  if f.denominator > 10 ** 18:
    f = Fraction(repr(float(c))) if 'e' not in repr(float(c)) else Fraction(float(c))
  return z3.RealVal(str(f))


def linear_query(residuals, tol, box=1.0):
  """Exists values of the monomials in [-box, box] with some |residual| > tol?

  Sound relaxation: monomials are independent reals.  Returns 'unsat' / 'sat'.
  """
  s = z3.Solver()
  s.set('timeout', 60000)
  var = {}
  ors = []
  for r in residuals:
    if not isinstance(r, Poly):
      v = abs(float(r))
      if not v <= tol:
        return 'sat'
      continue
    terms = []
    for m, c in r.t.items():
      if m == ():
        terms.append(rv(c))
        continue
      v = var.get(m)
      if v is None:
        v = var[m] = z3.Real(f'm{len(var)}')
        s.add(v >= -box, v <= box)
      terms.append(rv(c) * v)
    e = z3.Sum(terms)
    ors.append(e > rv(tol))
    ors.append(e < rv(-tol))
  s.add(z3.Or(ors) if ors else z3.BoolVal(False))
  return check(s)


def _conj(p):
  """Boolean polynomial as a list of (atom, value) if it is a conjunction of literals."""
  if not isinstance(p, Poly):
    return []
  if len(p.t) == 1:
    (m, c), = p.t.items()
    if abs(c - 1) < 1e-9:
      return [(a, 1) for a, _ in m]
  if len(p.t) == 2 and abs(p.t.get((), 0) - 1) < 1e-9:
    m = next(k for k in p.t if k != ())
    if len(m) == 1 and abs(p.t[m] + 1) < 1e-9:
      return [(m[0][0], 0)]
  return []


def lin_feasible(lits):
  """LRA relaxation of a conjunction of comparison literals.

  Monomials are independent reals within their interval bounds, linked by the
  definitions of square roots, inverses and declared rules (linear in
  monomials).  'unsat' is sound; anything else means unknown.
  """
  atoms = P.CTX.atoms
  work = list(lits)
  cons = []  # (poly, op)
  seen = set()
  while work:
    a, v = work.pop()
    at = atoms[a]
    if (a, v) in seen:
      continue
    seen.add((a, v))
    if at.kind == 'ind' or at.fn == 'free':
      continue
    arg = at.args[0]
    if not isinstance(arg, Poly):
      continue
    if P.has_bool(arg):
      if at.fn == 'eq0':
        p = P.sub(1.0, arg) if v else arg
        work.extend(_conj(p))
      continue
    op = {('gt0', 1): '>', ('gt0', 0): '<=', ('ge0', 1): '>=', ('ge0', 0): '<', ('eq0', 1): '==', ('eq0', 0): None}[(at.fn, v)]
    if op:
      cons.append((arg, op))
  if not cons:
    return 'unknown'
  # bounds on single atoms implied by linear single-atom constraints
  bl, bh = {}, {}
  for p, op in cons:
    ms = [m for m in p.t if m != ()]
    if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
      a = ms[0][0][0]
      b = -p.t.get((), 0.0) / p.t[ms[0]]
      up = (op in ('<', '<=')) == (p.t[ms[0]] > 0)
      if op == '==':
        bl[a] = max(bl.get(a, -INF), b)
        bh[a] = min(bh.get(a, INF), b)
      elif up:
        bh[a] = min(bh.get(a, INF), b)
      else:
        bl[a] = max(bl.get(a, -INF), b)
  s = z3.Solver()
  s.set('timeout', 5000)
  var = {}
  todo = []

  def mono(m):
    v = var.get(m)
    if v is None:
      v = var[m] = z3.Real(f'm{len(var)}')
      l = h = 1.0
      for a, e in m:
        at = atoms[a]
        x, y = P._ipow(max(at.lo, bl.get(a, -INF)), min(at.hi, bh.get(a, INF)), e)
        l, h = P._imul(l, h, x, y)
        todo.append(a)
      if l == l and l > -INF:
        s.add(v >= rv(l))
      if h == h and h < INF:
        s.add(v <= rv(h))
      if len(m) == 1:
        a, e = m[0]
        at = atoms[a]
        if at.fn == 'sqrt' and e == 2 and isinstance(at.args[0], Poly) and not P.has_bool(at.args[0]):
          s.add(v == lin(at.args[0]))
        elif at.fn == 'abs' and e == 1 and not P.has_bool(at.args[0]):
          x = lin(at.args[0])
          s.add(v >= x, v >= -x, z3.Or(v == x, v == -x))
    return v

  def lin(p):
    if not isinstance(p, Poly):
      return rv(p)
    return z3.Sum([rv(c) * mono(m) if m != () else rv(c) for m, c in p.t.items()])

  for p, op in cons:
    e = lin(p)
    s.add({'>': e > 0, '>=': e >= 0, '<': e < 0, '<=': e <= 0, '==': e == 0}[op])
  done = set()
  while todo:
    a = todo.pop()
    if a in done:
      continue
    done.add(a)
    at = atoms[a]
    if at.fn == 'sqrt' and isinstance(at.args[0], Poly) and not P.has_bool(at.args[0]):
      mono(((a, 2),))
    if at.fn == 'abs' and isinstance(at.args[0], Poly):
      mono(((a, 1),))
  return check(s)


class Enc:
  """Encodes Polys and the definitions of their atoms."""

  def __init__(self, timeout_ms=20000, exact=True, axioms=True):
    self.s = z3.Solver()
    self.s.set('timeout', timeout_ms)
    self.var = {}
    self.ints = {}
    self.axioms = axioms
    self.exps = []
    self.approx = False

  def atom(self, aid):
    v = self.var.get(aid)
    if v is not None:
      return v
    at = P.CTX.atoms[aid]
    s = self.s
    if at.kind == 'ind':
      g = at.group
      iv = self.ints.get(g)
      if iv is None:
        iv = z3.Int(f'g_{g}')
        self.ints[g] = iv
        s.add(z3.Or([iv == int(k) for k in P.CTX.groups[g]['values']]))
      v = z3.If(iv == int(at.value), z3.RealVal(1), z3.RealVal(0))
      self.var[aid] = v
      return v
    if at.kind == 'bool' and at.fn == 'free':
      b = z3.Bool(f'b{aid}')
      v = z3.If(b, z3.RealVal(1), z3.RealVal(0))
      self.var[aid] = v
      return v
    if at.is_bool:
      v = z3.If(self.batom(aid), z3.RealVal(1), z3.RealVal(0))
      self.var[aid] = v
      return v
    v = z3.Real(f'a{aid}')
    self.var[aid] = v
    if at.lo > -INF:
      s.add(v >= rv(at.lo))
    if at.hi < INF:
      s.add(v <= rv(at.hi))
    if at.kind == 'sym':
      if at.nonzero and at.lo <= 0 <= at.hi:
        s.add(v != 0)
      if at.rule is not None:
        s.add(_pw(v, at.rule[0]) == self.poly(at.rule[1]))
      return v
    if at.kind == 'special':
      self.approx = True
      return v
    fn = at.fn
    args = [self.poly(x) for x in at.args]
    if fn == 'id':
      s.add(v == args[0])
    elif fn == 'inv':
      s.add(v * args[0] == 1)
    elif fn == 'sqrt':
      s.add(v >= 0, v * v == args[0])
    elif fn == 'abs':
      s.add(v == z3.If(args[0] >= 0, args[0], -args[0]))
    elif fn == 'max':
      s.add(z3.And([v >= a for a in args]), z3.Or([v == a for a in args]))
    elif fn == 'min':
      s.add(z3.And([v <= a for a in args]), z3.Or([v == a for a in args]))
    elif fn == 'floor':
      k = z3.Int(f'fl{aid}')
      s.add(v == z3.ToReal(k), v <= args[0], args[0] < v + 1)
    elif fn == 'exp':
      self.approx = True
      x = args[0]
      s.add(v > 0, v >= 1 + x, z3.Implies(x < 1, v * (1 - x) <= 1),
            (x > 0) == (v > 1), (x == 0) == (v == 1))
      for x2, v2 in self.exps:
        s.add((x < x2) == (v < v2), (x == x2) == (v == v2))
      self.exps.append((x, v))
      self._taylor(at.args[0], x, v, lambda c: [math.exp(c) / math.factorial(k) for k in range(4)],
                   lambda lo, hi: math.exp(hi) / 24)
    elif fn == 'log':
      self.approx = True
      x = args[0]
      self._taylor(at.args[0], x, v, lambda c: [math.log(c), 1 / c, -1 / (2 * c * c), 1 / (3 * c ** 3)],
                   lambda lo, hi: 1 / (4 * lo ** 4) if lo > 0 else None)
      s.add(v <= x - 1, (x > 1) == (v > 0), (x == 1) == (v == 0), x * v >= x - 1)
    elif fn in ('sin', 'cos'):
      self.approx = True
      if at.rule is not None:
        s.add(_pw(v, at.rule[0]) == self.poly(at.rule[1]))
    else:
      self.approx = True
    return v

  def _taylor(self, arg, x, v, coef, rem):
    """third order expansion of a smooth function on a narrow interval."""
    lo, hi = P.interval(arg)
    if not (hi - lo < 0.2) or abs(lo) > 100:
      return
    c = (lo + hi) / 2
    if lo < 0 < hi or abs(c) < 1e-2:
      c = 0.0 if coef(1.0)[0] > 1 else c
    r = rem(lo, hi)
    if r is None:
      return
    d = max(hi - c, c - lo)
    r = r * d ** 4 * (1 + 1e-9) + 1e-15 * (1 + abs(coef(c)[0]))
    a = coef(c)
    h = x - rv(c)
    t = rv(a[0]) + h * (rv(a[1]) + h * (rv(a[2]) + h * rv(a[3])))
    self.s.add(v - t <= rv(r), t - v <= rv(r))

  def is_b(self, a):
    at = P.CTX.atoms[a]
    return at.kind == 'ind' or at.is_bool or at.kind == 'bool'

  def batom(self, aid):
    """z3 Bool for a boolean/indicator atom."""
    k = ('b', aid)
    v = self.var.get(k)
    if v is not None:
      return v
    at = P.CTX.atoms[aid]
    if at.kind == 'ind':
      g = at.group
      iv = self.ints.get(g)
      if iv is None:
        iv = z3.Int(f'g_{g}')
        self.ints[g] = iv
        self.s.add(z3.Or([iv == int(x) for x in P.CTX.groups[g]['values']]))
      v = iv == int(at.value)
    elif at.fn == 'free':
      v = z3.Bool(f'b{aid}')
    else:
      arg = at.args[0]
      if at.fn == 'eq0' and isinstance(arg, Poly) and all(self.is_b(a) for m in arg.t for a, _ in m):
        v = self.boolpoly(P.sub(1.0, arg))
      else:
        p = self.poly(arg)
        v = {'gt0': p > 0, 'ge0': p >= 0, 'eq0': p == 0}[at.fn]
      b = z3.Bool(f'n{aid}')
      self.s.add(b == v)
      v = b
    self.var[k] = v
    return v

  def boolpoly(self, p):
    """z3 Bool: the (0/1-valued) polynomial p equals 1."""
    if not isinstance(p, Poly):
      return z3.BoolVal(abs(p - 1.0) < 1e-6)
    if all(self.is_b(a) for m in p.t for a, _ in m):
      t = p.t
      if len(t) == 1:
        (m, c), = t.items()
        if abs(c - 1) < 1e-6:
          return z3.And([self.batom(a) for a, _ in m])
      if len(t) == 2 and abs(t.get((), 0) - 1) < 1e-6:
        m = next(k for k in t if k != ())
        if abs(t[m] + 1) < 1e-6:
          return z3.Not(z3.And([self.batom(a) for a, _ in m]))
    return self.poly(p) == 1

  def poly(self, p):
    if not isinstance(p, Poly):
      return rv(p)
    terms = []
    for m, c in p.t.items():
      bs = [a for a, _ in m if self.is_b(a)]
      if bs:
        rest = tuple(x for x in m if not self.is_b(x[0]))
        inner = self.poly(Poly({rest: c}))
        terms.append(z3.If(z3.And([self.batom(a) for a in bs]), inner, z3.RealVal(0)))
        for a in bs:
          self.atom(a)
        continue
      t = [rv(c)]
      for a, e in m:
        v = self.atom(a)
        if isinstance(e, int):
          if e > 0:
            t.extend([v] * e)
          else:
            w = self._invvar(a, v)
            t.extend([w] * (-e))
        else:
          t.append(self._realpow(a, v, e))
      if len(t) == 1:
        terms.append(t[0])
      else:
        x = t[0]
        for y in t[1:]:
          x = x * y
        terms.append(x)
    return z3.Sum(terms) if terms else z3.RealVal(0)

  def _invvar(self, a, v):
    k = ('inv', a)
    w = self.var.get(k)
    if w is None:
      w = z3.Real(f'i{a}')
      self.var[k] = w
      self.s.add(w * v == 1)
    return w

  def _realpow(self, a, v, e):
    k = ('pow', a, e)
    w = self.var.get(k)
    if w is None:
      self.approx = True
      w = z3.Real(f'p{a}_{len(self.var)}')
      self.var[k] = w
      self.s.add(w > 0)
      at = P.CTX.atoms[a]
      if at.fn == 'exp':
        # w = exp(e*x)
        x = self.poly(at.args[0]) * rv(e)
        self.s.add(w >= 1 + x, (x > 0) == (w > 1), (x == 0) == (w == 1))
        for x2, v2 in self.exps:
          self.s.add((x < x2) == (w < v2), (x == x2) == (w == v2))
        self.exps.append((x, w))
    return w

  def model_values(self):
    m = self.s.model()
    out = {}
    for aid, v in self.var.items():
      if not isinstance(aid, int):
        continue
      at = P.CTX.atoms[aid]
      if at.kind == 'sym':
        out[aid] = _num(m.eval(v, model_completion=True))
      elif at.kind in ('ind',) or at.is_bool:
        out[aid] = _num(m.eval(v, model_completion=True))
    ints = {g: m.eval(iv, model_completion=True).as_long() for g, iv in self.ints.items()}
    return out, ints


def _pw(v, n):
  r = v
  for _ in range(n - 1):
    r = r * v
  return r


def _num(x):
  if z3.is_rational_value(x):
    return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
  if z3.is_algebraic_value(x):
    a = x.approx(20)
    return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
  try:
    return float(str(x))
  except ValueError:
    return 0.0
