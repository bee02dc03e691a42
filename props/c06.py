"""C06: quadrature rules."""
import json
import os
import time
import math
import numpy as np
import jax
import jax.numpy as jnp
import e3x
from sx import harness as H
from sx import paths as PX
from sx import solve
from sx.poly import Unsupported, Poly
from sx import poly as P

z3 = solve.z3
INFO = dict(
    functions=['e3x.so3.lebedev_quadrature', 'e3x.so3.delley_quadrature', 'e3x.so3.quadrature._load_grid', 'the packaged grid data'],
    bounds='all integers as requested precision or number of points (unbounded symbolic integer, every feasible path); exactness of every returned rule for all real polynomial integrands up to the full precision of the rule (<= 131)',
    outside='non-integer requests; single-precision rounding of the points',
    explanation='The real grid selection is executed with a symbolic integer request; on each path z3 refutes that a better rule exists. Exactness: one linear query per rule and degree over symbolic integrand coefficients.',
    assumptions=['the packaged precision/num tables describe the packaged grids (cross-checked by the exactness queries)'])

KINDS = dict(lebedev='lebedev_quadrature', delley='delley_quadrature')


def _tables(kind):
  path = os.path.join(os.path.dirname(e3x.so3.__file__), f'_{kind}_grids.npz')
  with np.load(path) as g:
    return [int(x) for x in g['precision']], [int(x) for x in g['num']]


def _spec_bad(kind, mode, x, c):
  """z3: rule c is the wrong answer for request x."""
  prec, num = _tables(kind)
  if mode == 'precision':
    ok = z3.And(prec[c] >= x, *[z3.Implies(z3.IntVal(prec[j]) >= x, z3.BoolVal(num[j] >= num[c])) for j in range(len(prec))])
    clamp = z3.And(x > max(prec), z3.BoolVal(prec[c] == max(prec)))
    return z3.Not(z3.Or(ok, clamp))
  ok = z3.And(num[c] <= x, *[z3.Implies(z3.IntVal(num[j]) <= x, z3.BoolVal(prec[j] <= prec[c])) for j in range(len(prec))])
  clamp = z3.And(x < min(num), z3.BoolVal(num[c] == min(num)))
  return z3.Not(z3.Or(ok, clamp))


def _which(kind, r, w):
  prec, num = _tables(kind)
  n = int(np.shape(r)[0])
  if np.shape(r) != (n, 3) or np.shape(w) != (n,) or n not in num:
    return None
  return num.index(n)


def _finish(res, name, outdir, inputs, detail):
  res.status = 'violation'
  res.detail = detail
  os.makedirs(outdir, exist_ok=True)
  res.replay = os.path.join(outdir, f'C06-{name}.json')
  with open(res.replay, 'w') as f:
    json.dump(dict(property='C06', case=name, inputs=inputs, failures=[detail]), f, indent=1)
  return res


def _concrete_bad(kind, mode, v):
  """replay on the real code -> description or None."""
  try:
    r, w = getattr(e3x.so3, KINDS[kind])(**{mode: v})
  except Exception as e:
    return f'{KINDS[kind]}({mode}={v}) raised {type(e).__name__}: {e}'
  c = _which(kind, r, w)
  if c is None:
    return f'{KINDS[kind]}({mode}={v}) returned arrays of shape {np.shape(r)}, {np.shape(w)}'
  s = z3.Solver()
  s.add(_spec_bad(kind, mode, z3.IntVal(v), c))
  if s.check() == z3.sat:
    prec, num = _tables(kind)
    return f'{KINDS[kind]}({mode}={v}) returned the rule with precision {prec[c]} and {num[c]} points'
  return None


def _select(kind, mode):
  def build():
    def run(name, seed, outdir):
      t0 = time.time()
      res = H.Result(name)
      solve.STATS = solve.Stats()
      res.symbols = 1
      x = z3.Int('x')
      try:
        base = z3.BoolVal(True)
        call = lambda: getattr(e3x.so3, KINDS[kind])(**{mode: PX.Sym(x)})
        try:
          with PX.shim(e3x.so3.quadrature):
            ps = PX.explore(call)
        except Unsupported:
          # the code asks for concrete values: bounded request
          base = z3.And(x >= -3, x <= (135 if mode == 'precision' else 600))
          ps = PX.explore(call, base=base, max_concrete=1000)
        cover = z3.Or([pc for pc, _ in ps])
        m = PX.refute(base, z3.Not(cover))
        if m is not None:
          raise Unsupported('paths do not cover all requests')
        for pc, (k, v) in ps:
          res.scalars += 1
          res.nontrivial += 1
          res.claims += 1
          if k == 'raise':
            bad = z3.BoolVal(True)
          else:
            c = _which(kind, *v)
            bad = z3.BoolVal(True) if c is None else _spec_bad(kind, mode, x, c)
          m = PX.refute(pc, bad)
          if m is not None:
            xv = m.eval(x, model_completion=True).as_long()
            d = _concrete_bad(kind, mode, xv)
            if d:
              res.stats = solve.STATS.as_dict()
              res.wall = time.time() - t0
              return _finish(res, name, outdir, {mode: xv}, d)
            if k == 'raise':
              raise Unsupported(f'symbolic run raised {type(v).__name__}: {v}; the concrete run passes')
            raise Unsupported('counterexample not confirmed')
        res.detail = f'{len(ps)} paths'
        res.eqns = len(ps)
      except Unsupported as e:
        res.status, res.detail = 'inconclusive', str(e)
        # the selection could not be executed symbolically; look for a failure
        prec, num = _tables(kind)
        for v in sorted({b + d for b in [0] + (prec if mode == 'precision' else num) for d in (-2, -1, 0, 1)}):
          d = _concrete_bad(kind, mode, v)
          if d:
            _finish(res, name, outdir, {mode: v}, d)
            break
      res.stats = solve.STATS.as_dict()
      res.wall = time.time() - t0
      return res
    return run
  return build


def _both(kind):
  def build():
    def run(name, seed, outdir):
      res = H.Result(name)
      solve.STATS = solve.Stats()
      t0 = time.time()
      f = getattr(e3x.so3, KINDS[kind])
      x, y = z3.Ints('x y')
      res.symbols = 2
      for what, kw in (('both', dict(precision=PX.Sym(x), num=PX.Sym(y))), ('neither', {}),
                       ('None', dict(precision=None, num=None))):
        ps = PX.explore(lambda: f(**kw))
        for pc, (k, v) in ps:
          res.claims += 1
          res.scalars += 1
          if not (k == 'raise' and isinstance(v, ValueError)):
            m = PX.refute(pc, z3.BoolVal(True))
            if m is None:
              continue
            vals = {k2: m.eval(s.e, model_completion=True).as_long() for k2, s in kw.items() if s is not None}
            try:
              f(**{k2: vals.get(k2) for k2 in kw})
              d = 'returned a rule'
            except ValueError:
              continue
            except Exception as e:
              d = f'raised {type(e).__name__}'
            return _finish(res, name, outdir, vals, f'{KINDS[kind]} with {what} of precision/num given {d} instead of raising ValueError ({vals})')
      res.nontrivial = 1
      res.stats = solve.STATS.as_dict()
      res.wall = time.time() - t0
      return res
    return run
  return build


def _legendre(L, z):
  """normalised associated Legendre values P[l][m] (4pi normalisation: mean
  square one over the sphere), arrays over points."""
  s = np.sqrt(np.maximum(0.0, 1 - z * z))
  P_ = {}
  P_[(0, 0)] = np.ones_like(z)
  for m in range(1, L + 1):
    P_[(m, m)] = s * P_[(m - 1, m - 1)] * math.sqrt((2 * m + 1) / (2 * m))
  for m in range(0, L):
    P_[(m + 1, m)] = z * P_[(m, m)] * math.sqrt(2 * m + 3)
    for l in range(m + 2, L + 1):
      a = math.sqrt((4 * l * l - 1) / (l * l - m * m))
      b = math.sqrt(((l - 1) ** 2 - m * m) / (4 * (l - 1) ** 2 - 1))
      P_[(l, m)] = a * (z * P_[(l - 1, m)] - b * P_[(l - 2, m)])
  return P_


def _exact(kind, lo, hi, cap, x64=True):
  """rules lo..hi: unit points, weights sum to one, exactness."""
  def build():
    def run(name, seed, outdir):
      res = H.Result(name)
      solve.STATS = solve.Stats()
      t0 = time.time()
      prec, num = _tables(kind)
      old = jax.config.jax_enable_x64
      jax.config.update('jax_enable_x64', x64)
      tol = 1e-7 if x64 else 2e-4
      try:
        for c in range(lo, min(hi, len(prec))):
          try:
            r, w = getattr(e3x.so3, KINDS[kind])(precision=prec[c])
          except Exception as e:
            return _finish(res, name, outdir, dict(precision=prec[c]), f'raised {type(e).__name__}: {e}')
          r, w = np.asarray(r, np.float64), np.asarray(w, np.float64)
          if r.ndim != 2 or r.shape[1] != 3 or w.shape != r.shape[:1]:
            return _finish(res, name, outdir, dict(precision=prec[c]), f'shapes {r.shape}, {w.shape}')
          L = min(prec[c], cap)
          Y = _legendre(L, r[:, 2])
          th = np.arctan2(r[:, 1], r[:, 0])
          P.reset()
          syms = {}
          resid = []
          nrm = P.mul(P.ctx().symbol('c', -1.0, 1.0), float(np.max(np.abs(np.sum(r * r, -1) - 1))))
          resid.append(nrm)
          for l in range(L + 1):
            for m in range(0, l + 1):
              for nm, trig in (('c', np.cos), ('s', np.sin)):
                if m == 0 and nm == 's':
                  continue
                e = float(np.sum(w * Y[(l, m)] * trig(m * th)) * (math.sqrt(2) if m else 1.0)) - (1.0 if l == 0 else 0.0)
                res.scalars += 1
                res.nontrivial += 1
                if abs(e) > 0:
                  resid.append(Poly({((P.ctx().symbol(f'{nm}{l},{m}', -1.0, 1.0), 1),): 1.0}) if False else
                               P.mul(P.ctx().symbol(f'{nm}{l},{m}', -1.0, 1.0), e))
          res.symbols += len(resid)
          res.claims += 1
          # any integrand with coefficients in [-1, 1] per harmonic
          for k in range(0, len(resid), 500):
            if solve.linear_query(resid[k:k + 500], tol) != 'unsat':
              worst = max(resid, key=lambda p: max(map(abs, p.t.values())) if isinstance(p, Poly) else abs(p))
              return _finish(res, name, outdir, dict(precision=prec[c]),
                             f'{KINDS[kind]}(precision={prec[c]}): integration error {worst!r} (degree <= {L})')
      finally:
        jax.config.update('jax_enable_x64', old)
        res.stats = solve.STATS.as_dict()
        res.wall = time.time() - t0
      return res
    return run
  return build


def cases(tier):
  out = []
  cap = 131
  for k in KINDS:
    for mode in ('precision', 'num'):
      out.append((f'select-{k}-{mode}', _select(k, mode)))
    out.append((f'both-{k}', _both(k)))
    n = 32 if k == 'lebedev' else 18
    step = 3
    for a in range(0, n, step):
      out.append((f'exact-{k}-{a}', _exact(k, a, a + step, cap)))
    out.append((f'exact-{k}-f32', _exact(k, 0, 8, 15, False)))
  return out
