"""Interval constraint propagation for queries over transcendental terms.

Decides  exists x in box: conditions(x) and |q(x)| > tol  (or: boolean f(x))
by branch and bound with outward-rounded interval arithmetic over the terms of
sx.poly, including their transcendental atoms (natural extension intersected
with the mean-value form obtained by interval differentiation).  'unsat' holds
for every real point of the box; otherwise candidate points are returned.
Boxes are processed in vectorised batches.
"""
from __future__ import annotations

import math
import time

import numpy as np

from . import poly as P
from .poly import Poly

SLOP = 4e-15
TINY = 1e-300
INF = np.inf


class TooHard(Exception):
  pass


class IV:
  """Interval with interval gradient, vectorised over N boxes."""
  __slots__ = ('lo', 'hi', 'dl', 'dh')

  def __init__(self, lo, hi, dl, dh):
    self.lo, self.hi, self.dl, self.dh = lo, hi, dl, dh


def _out(lo, hi):
  lo = np.where(np.isnan(lo), -INF, lo)
  hi = np.where(np.isnan(hi), INF, hi)
  lo = np.where(np.isfinite(lo), lo - np.abs(lo) * SLOP - TINY, lo)
  hi = np.where(np.isfinite(hi), hi + np.abs(hi) * SLOP + TINY, hi)
  return lo, hi


def _mulb(al, ah, bl, bh):
  """interval product with 0 * inf = 0."""
  with np.errstate(invalid='ignore', over='ignore'):
    ps = []
    for x in (al, ah):
      for y in (bl, bh):
        p = x * y
        ps.append(np.where((x == 0) | (y == 0), 0.0, p))
    lo = np.minimum(np.minimum(ps[0], ps[1]), np.minimum(ps[2], ps[3]))
    hi = np.maximum(np.maximum(ps[0], ps[1]), np.maximum(ps[2], ps[3]))
  return _out(lo, hi)


class Eval:

  def __init__(self, syms):
    """syms: list of base atom ids."""
    self.syms = syms
    self.k = len(syms)
    self.comb = {}
    self.fact = {}

  def start(self, lo, hi):
    self.N = lo.shape[1]
    self.lo, self.hi = lo, hi
    self.mid = (lo + hi) / 2
    self.cache = {}
    self.pcache = {}

  def const(self, c):
    z = np.zeros((self.k, self.N))
    return IV(np.full(self.N, float(c)), np.full(self.N, float(c)), z, z)

  # -- arithmetic
  def add(self, a, b):
    with np.errstate(invalid='ignore', over='ignore'):
      lo, hi = _out(a.lo + b.lo, a.hi + b.hi)
      dl, dh = _out(a.dl + b.dl, a.dh + b.dh)
    return IV(lo, hi, dl, dh)

  def mul(self, a, b):
    lo, hi = _mulb(a.lo, a.hi, b.lo, b.hi)
    l1, h1 = _mulb(a.dl, a.dh, b.lo, b.hi)
    l2, h2 = _mulb(b.dl, b.dh, a.lo, a.hi)
    with np.errstate(invalid='ignore', over='ignore'):
      dl, dh = _out(l1 + l2, h1 + h2)
    return IV(lo, hi, dl, dh)

  def scale(self, a, c):
    return self.mul(a, self.const(c)) if c != 1.0 else a

  def chain(self, a, lo, hi, fl, fh):
    """value [lo,hi], derivative of outer in [fl,fh]."""
    lo, hi = _out(lo, hi)
    fl, fh = _out(fl, fh)
    dl, dh = _mulb(a.dl, a.dh, fl[None], fh[None])
    return IV(lo, hi, dl, dh)

  def pow(self, a, e):
    if e == 1:
      return a
    with np.errstate(all='ignore'):
      if isinstance(e, int) and e > 0:
        x, y = a.lo ** e, a.hi ** e
        if e % 2:
          lo, hi = x, y
        else:
          lo = np.where((a.lo <= 0) & (a.hi >= 0), 0.0, np.minimum(x, y))
          hi = np.maximum(x, y)
        d = self.pow(IV(a.lo, a.hi, a.dl, a.dh), e - 1) if e > 1 else self.const(1)
        return self.chain(a, lo, hi, e * d.lo, e * d.hi)
      pos = a.lo > 0
      if isinstance(e, int):
        neg = a.hi < 0
        x, y = a.lo ** float(e), a.hi ** float(e)
        fx, fy = e * a.lo ** float(e - 1), e * a.hi ** float(e - 1)
        ok = pos | neg
        lo = np.where(ok, np.minimum(x, y), 0.0 if e % 2 == 0 else -INF)
        # one-sided: [0, h]
        lo = np.where(~ok & (a.lo >= 0), np.where(a.hi > 0, a.hi ** float(e), 0.0), lo)
        hi = np.where(ok, np.maximum(x, y), INF)
        return self.chain(a, lo, hi, np.where(ok, np.minimum(fx, fy), -INF), np.where(ok, np.maximum(fx, fy), INF))
      l = np.maximum(a.lo, 0.0)
      x, y = l ** e, np.maximum(a.hi, 0.0) ** e
      fx, fy = e * l ** (e - 1), e * np.maximum(a.hi, 0.0) ** (e - 1)
      return self.chain(a, np.minimum(x, y), np.maximum(x, y), np.where(pos, np.minimum(fx, fy), -INF), np.where(pos, np.maximum(fx, fy), INF))

  # -- terms
  def factor(self, p):
    """p = monomial * rest."""
    k = id(p)
    r = self.fact.get(k)
    if r is None:
      ms = list(p.t)
      common = dict(ms[0])
      for m in ms[1:]:
        dm = dict(m)
        common = {x: (min(e, dm[x]) if e > 0 else max(e, dm[x])) for x, e in common.items() if x in dm and e * dm[x] > 0}
        if not common:
          break
      if common and len(ms) > 1:
        d = {}
        for m, c in p.t.items():
          dm = dict(m)
          for x, e in common.items():
            ne = dm[x] - e
            if ne == 0:
              del dm[x]
            else:
              dm[x] = ne
          d[tuple(sorted(dm.items()))] = c
        r = (tuple(sorted(common.items())), Poly(d))
      else:
        r = ((), p)
      self.fact[k] = (r, p)  # keeps p alive
      return r
    return r[0]

  def poly(self, p):
    if not isinstance(p, Poly):
      return self.const(p)
    k = id(p)
    r = self.pcache.get(k)
    if r is not None:
      return r[0]
    com, rest = self.factor(p)
    acc = None
    for m, c in rest.t.items():
      t = self.scale(self.mono(m), c)
      acc = t if acc is None else self.add(acc, t)
    acc = self.mean(acc, rest)
    if com:
      acc = self.mean(self.mul(self.mono(com), acc), p)
    iv = P.interval(p)
    acc = IV(np.maximum(acc.lo, iv[0]), np.minimum(acc.hi, iv[1]), acc.dl, acc.dh)
    self.pcache[k] = (acc, p)
    return acc

  def mean(self, a, p):
    """intersects with the mean-value form around the midpoint."""
    if self.center is None:
      return a
    c = self.center.poly_nomean(p)
    with np.errstate(invalid='ignore', over='ignore'):
      w = (self.hi - self.lo) / 2
      m = np.maximum(np.abs(a.dl), np.abs(a.dh))
      r = np.sum(np.where(w == 0, 0.0, m * w), axis=0)
      lo, hi = _out(c.lo - r, c.hi + r)
    lo = np.maximum(a.lo, lo)
    hi = np.minimum(a.hi, hi)
    bad = lo > hi
    return IV(np.where(bad, a.lo, lo), np.where(bad, a.hi, hi), a.dl, a.dh)

  center = None

  def poly_nomean(self, p):
    return self.poly(p)

  def mono(self, m):
    if m == ():
      return self.const(1.0)
    exps = [(a, e) for a, e in m if P.CTX.atoms[a].fn == 'exp']
    r = None
    if exps:
      key = tuple(exps)
      s = self.comb.get(key)
      if s is None:
        s = 0.0
        for a, e in exps:
          s = P.add(s, P.mul(P.CTX.atoms[a].args[0], float(e)))
        self.comb[key] = s
      x = self.poly(s)
      with np.errstate(over='ignore'):
        lo, hi = np.exp(x.lo), np.exp(x.hi)
      r = self.chain(x, lo, hi, lo, hi)
      r.lo = np.maximum(r.lo, 0.0)
    for a, e in m:
      if P.CTX.atoms[a].fn == 'exp':
        continue
      t = self.pow(self.atom(a), e)
      r = t if r is None else self.mul(r, t)
    return r

  def atom(self, aid):
    r = self.cache.get(aid)
    if r is None:
      r = self.cache[aid] = self._atom(aid)
      at = P.CTX.atoms[aid]
      r.lo = np.maximum(r.lo, at.lo)
      r.hi = np.minimum(r.hi, at.hi)
    return r

  def _atom(self, aid):
    at = P.CTX.atoms[aid]
    if aid in self.index:
      j = self.index[aid]
      d = np.zeros((self.k, self.N))
      d[j] = 1.0
      return IV(self.lo[j].copy(), self.hi[j].copy(), d, d)
    if at.fn is None or at.kind == 'special':
      raise TooHard(str(at))
    xs = [self.poly(x) for x in at.args]
    x = xs[0]
    fn = at.fn
    one, zero = np.ones(self.N), np.zeros(self.N)
    with np.errstate(all='ignore'):
      if fn == 'id':
        return IV(x.lo.copy(), x.hi.copy(), x.dl, x.dh)
      if fn == 'inv':
        return self.pow(x, -1)
      if fn == 'sqrt':
        l, h = np.sqrt(np.maximum(x.lo, 0)), np.sqrt(np.maximum(x.hi, 0))
        return self.chain(x, l, h, np.where(h > 0, 0.5 / h, 0.0), np.where(l > 0, 0.5 / l, INF))
      if fn == 'exp':
        l, h = np.exp(x.lo), np.exp(x.hi)
        return self.chain(x, l, h, l, h)
      if fn == 'log':
        l = np.where(x.lo > 0, np.log(np.where(x.lo > 0, x.lo, 1)), -INF)
        h = np.where(x.hi > 0, np.log(np.where(x.hi > 0, x.hi, 1)), -INF)
        return self.chain(x, l, h, np.where(x.hi > 0, 1 / x.hi, 0), np.where(x.lo > 0, 1 / x.lo, INF))
      if fn == 'abs':
        s = (x.lo <= 0) & (x.hi >= 0)
        a, b = np.abs(x.lo), np.abs(x.hi)
        return self.chain(x, np.where(s, 0, np.minimum(a, b)), np.maximum(a, b), np.where(x.lo >= 0, 1.0, -1.0), np.where(x.hi <= 0, -1.0, 1.0))
      if fn in ('max', 'min'):
        y = xs[1]
        f = np.maximum if fn == 'max' else np.minimum
        lo, hi = f(x.lo, y.lo), f(x.hi, y.hi)
        first = (x.lo >= y.hi) if fn == 'max' else (x.hi <= y.lo)
        second = (y.lo >= x.hi) if fn == 'max' else (y.hi <= x.lo)
        dl = np.where(first, x.dl, np.where(second, y.dl, np.minimum(x.dl, y.dl)))
        dh = np.where(first, x.dh, np.where(second, y.dh, np.maximum(x.dh, y.dh)))
        return IV(lo, hi, dl, dh)
      if fn in ('gt0', 'ge0', 'eq0'):
        if fn == 'gt0':
          lo, hi = (x.lo > 0), (x.hi > 0)
        elif fn == 'ge0':
          lo, hi = (x.lo >= 0), (x.hi >= 0)
        else:
          lo = (x.lo == 0) & (x.hi == 0)
          hi = (x.lo <= 0) & (x.hi >= 0)
        d = lo == hi
        z = np.zeros((self.k, self.N))
        return IV(lo.astype(float), hi.astype(float), np.where(d[None], z, -INF), np.where(d[None], z, INF))
      if fn in ('tanh', 'atan', 'erf', 'asin', 'sinh'):
        g = {'tanh': np.tanh, 'atan': np.arctan, 'asin': np.arcsin, 'sinh': np.sinh, 'erf': np.vectorize(math.erf, otypes=[float])}[fn]
        xl, xh = (np.clip(x.lo, -1, 1), np.clip(x.hi, -1, 1)) if fn == 'asin' else (x.lo, x.hi)
        l, h = g(xl), g(xh)
        l, h = l - 1e-13 * (1 + np.abs(l)), h + 1e-13 * (1 + np.abs(h))
        if fn in ('tanh', 'erf', 'atan'):
          mx = 2 / math.sqrt(math.pi) if fn == 'erf' else 1.0
          return self.chain(x, l, h, zero, one * mx)
        return self.chain(x, l, h, zero, one * INF)
      if fn in ('sin', 'cos'):
        sh = 0.0 if fn == 'cos' else math.pi / 2
        l, h = _cosr(x.lo - sh, x.hi - sh)
        # derivative: cos' = -sin, sin' = cos
        dl, dh = _cosr(x.lo + math.pi / 2, x.hi + math.pi / 2) if fn == 'cos' else _cosr(x.lo, x.hi)
        return self.chain(x, l, h, dl, dh)
      if fn == 'acos':
        l, h = np.arccos(np.clip(x.hi, -1, 1)), np.arccos(np.clip(x.lo, -1, 1))
        return self.chain(x, l, h, one * -INF, zero)
      if fn == 'pow':
        return self.pow(x, at.extra)
      if fn == 'floor':
        l, h = np.floor(x.lo), np.floor(x.hi)
        d = (l == h)
        z = np.zeros((self.k, self.N))
        return IV(l, h, np.where(d[None], z, -INF), np.where(d[None], z, INF))
    # unknown function: only its static range
    if math.isfinite(at.lo) or math.isfinite(at.hi):
      z = np.full((self.k, self.N), INF)
      return IV(one * at.lo, one * at.hi, -z, z)
    raise TooHard(fn)


def _cosr(lo, hi):
  """range of cos over [lo, hi] (vectorised, widened)."""
  with np.errstate(all='ignore'):
    bad = ~(np.isfinite(lo) & np.isfinite(hi)) | (hi - lo >= 2 * math.pi) | (np.maximum(np.abs(lo), np.abs(hi)) > 1e6)
    l0, h0 = np.where(bad, 0, lo), np.where(bad, 0, hi)
    a, b = np.cos(l0), np.cos(h0)
    l, h = np.minimum(a, b), np.maximum(a, b)
    tp = 2 * math.pi
    hasmax = np.floor((h0 + 1e-9) / tp) >= np.ceil((l0 - 1e-9) / tp)
    hasmin = np.floor((h0 - math.pi + 1e-9) / tp) >= np.ceil((l0 - math.pi - 1e-9) / tp)
    h = np.where(hasmax, 1.0, h + 1e-12)
    l = np.where(hasmin, -1.0, l - 1e-12)
  return np.where(bad, -1.0, l), np.where(bad, 1.0, h)


STATS = dict(queries=0, boxes=0, time=0.0)


def _base(ps):
  seen = set()
  for p in ps:
    P.atoms_of(p, seen)
  return sorted(a for a in seen if P.CTX.atoms[a].fn in (None, 'free') and P.CTX.atoms[a].kind != 'special')


def decide(query, conds=(), max_boxes=2000000, max_time=8.0, max_syms=7):
  """query: ('eq', q, tol) or ('bool', f); conds: (boolean Poly, wanted value).

  -> ('unsat', []) or ('unknown', [candidate dicts]).
  """
  t0 = time.time()
  STATS['queries'] += 1
  main = query[1]
  ps = [main] + [c for c, _ in conds]
  syms = _base(ps)
  if len(syms) > max_syms or not syms:
    return 'unknown', []
  at = [P.CTX.atoms[a] for a in syms]
  if any(a.kind == 'ind' or not (math.isfinite(a.lo) and math.isfinite(a.hi)) for a in at):
    return 'unknown', []
  isb = np.array([a.is_bool for a in at])
  lo = np.array([[a.lo] for a in at], float)
  hi = np.array([[a.hi] for a in at], float)
  w0 = np.maximum(hi - lo, 1e-12)
  ev, cv = Eval(syms), Eval(syms)
  ev.index = cv.index = {a: j for j, a in enumerate(syms)}
  cands = []
  total = 0
  try:
    while lo.shape[1]:
      n = min(lo.shape[1], 2000)
      L, H = lo[:, :n], hi[:, :n]
      lo, hi = lo[:, n:], hi[:, n:]
      total += n
      mid = (L + H) / 2
      cv.start(mid, mid)
      ev.start(L, H)
      ev.center = cv
      alive = np.ones(n, bool)
      for c, v in conds:
        r = ev.poly(c)
        alive &= (r.hi > 0.5) if v else (r.lo < 0.5)
      r = ev.poly(main)
      if query[0] == 'eq':
        alive &= ~((r.hi <= query[2]) & (r.lo >= -query[2]))
      else:
        alive &= r.hi > 0.5
      if not alive.any():
        continue
      L, H = L[:, alive], H[:, alive]
      if len(cands) < 8:
        # definite hits at midpoints
        m = cv.poly(main)
        hit = ((m.lo > query[2]) | (m.hi < -query[2])) if query[0] == 'eq' else (m.lo > 0.5)
        for c, v in conds:
          cc = cv.poly(c)
          hit &= (cc.lo > 0.5) if v else (cc.hi < 0.5)
        for j in np.flatnonzero(hit)[:4]:
          cands.append({a: float(mid[i, j]) for i, a in enumerate(syms)})
        if cands:
          return 'unknown', cands
      if total > max_boxes or time.time() - t0 > max_time:
        break
      # split: relative width, logarithmic for wide positive ranges
      rel = (H - L) / w0
      with np.errstate(all='ignore'):
        ratio = np.where((L > 0), H / np.where(L > 0, L, 1), np.where(H < 0, L / np.where(H < 0, H, -1), np.inf))
        lw = np.where(ratio > 4, np.log(np.minimum(ratio, 1e30)) * np.maximum(rel, 1e-3), 0)
      score = rel + 0.05 * lw
      # prefer directions with a large effect
      g = np.maximum(np.abs(r.dl[:, alive]), np.abs(r.dh[:, alive])) * (H - L)
      g = np.where(np.isfinite(g), g, np.nanmax(np.where(np.isfinite(g), g, 0)) + 1e3 * rel)
      score = g / (g.sum(axis=0) + TINY) + score
      score = np.where(H > L, score, -1)
      j = np.argmax(score, axis=0)
      cols = np.arange(L.shape[1])
      if (score[j, cols] <= 0).any():
        return 'unknown', [{a: float(((L + H) / 2)[i, 0]) for i, a in enumerate(syms)}]
      a, b = L[j, cols], H[j, cols]
      with np.errstate(all='ignore'):
        cut = (a + b) / 2
        cut = np.where((a > 0) & (b > 4 * a), np.sqrt(a) * np.sqrt(b), cut)
        cut = np.where((b < 0) & (a < 4 * b), -np.sqrt(-a) * np.sqrt(-b), cut)
      bb = isb[j]
      L2, H2 = L.copy(), H.copy()
      H1 = H.copy()
      H1[j, cols] = np.where(bb, 0.0, cut)
      L2[j, cols] = np.where(bb, 1.0, cut)
      lo = np.concatenate([L, L2, lo], axis=1)
      hi = np.concatenate([H1, H2, hi], axis=1)
    else:
      return 'unsat', []
    j = 0
    return 'unknown', [{a: float(((L + H) / 2)[i, j]) for i, a in enumerate(syms)}]
  except TooHard:
    return 'unknown', []
  finally:
    STATS['boxes'] += total
    STATS['time'] += time.time() - t0
