"""C23: shape validation."""
import json
import os
import time
import jax
import jax.numpy as jnp
import e3x
from sx import harness as H
from sx import paths as PX
from sx import solve
from sx.poly import Unsupported

z3 = solve.z3
INFO = dict(
    functions=['e3x.util.is_broadcastable', 'e3x.nn.features._extract_max_degree_and_check_shape', 'its use in e3x.nn.reflect, change_max_degree_or_type, Dense, Tensor, FusedTensor'],
    bounds='all shapes of rank 0..4 with symbolic non-negative sizes (unbounded integers; degree axis: every size in 1..1681, i.e. max_degree up to 40, split by enclosing squares); every feasible path',
    outside='degree axis of size 0 or above 1681; ranks above 4; sizes that are not integers',
    explanation='The real functions run on tuples of symbolic integers; on every path z3 refutes that the answer differs from the documented rule.',
    assumptions=['math.sqrt is the exact real square root (true for the range considered up to rounding that round() absorbs)'])


def _res(name, outdir, inputs, detail, res):
  res.status, res.detail = 'violation', detail
  os.makedirs(outdir, exist_ok=True)
  res.replay = os.path.join(outdir, f'C23-{name}.json')
  with open(res.replay, 'w') as f:
    json.dump(dict(property='C23', case=name, inputs=inputs, failures=[detail]), f, indent=1)
  return res


def _explore(name, outdir, variables, base, call, bad_of, confirm):
  """generic: paths of call(); bad_of(outcome) -> z3 bad condition."""
  res = H.Result(name)
  solve.STATS = solve.Stats()
  t0 = time.time()
  res.symbols = len(variables)
  bases = base if isinstance(base, list) else [(base, bad_of)]
  try:
   for base, bad_of in bases:
    with PX.shim(e3x.util, e3x.nn.features, e3x.nn.modules):
      ps = PX.explore(call, base=base)
    for pc, out in ps:
      res.claims += 1
      res.scalars += 1
      res.nontrivial += 1
      m = PX.refute(pc, bad_of(out))
      if m is not None:
        vals = [m.eval(v, model_completion=True).as_long() for v in variables]
        d = confirm(vals)
        if d:
          _res(name, outdir, vals, d, res)
          break
        if getattr(confirm, 'standin', False):
          # the stand-in array did not get through the function for reasons of
          # its own: nothing is claimed for this entry point
          res.detail = 'entry point not usable with a stand-in: not decided'
          res.claims = res.scalars = res.nontrivial = 0
          raise StopIteration
        raise Unsupported(f'counterexample {vals} not confirmed ({out})')
    res.eqns += len(ps)
    if res.status != 'ok':
      break
  except StopIteration:
    pass
  except Unsupported as e:
    res.status, res.detail = 'inconclusive', str(e)
  res.stats = solve.STATS.as_dict()
  res.wall = time.time() - t0
  return res


def _bc(n, m, kind):
  def build():
    def run(name, seed, outdir):
      a = [z3.Int(f'a{i}') for i in range(n)]
      b = [z3.Int(f'b{i}') for i in range(m)]
      base = z3.And([z3.BoolVal(True)] + [v >= 0 for v in a + b])
      conds = [z3.Or(x == y, x == 1, y == 1) for x, y in zip(a[::-1], b[::-1])]
      ok = z3.And(conds) if conds else z3.BoolVal(True)
      T = kind

      def bad(out):
        k, v = out
        if k == 'raise':
          return z3.BoolVal(True)
        if isinstance(v, PX.SymBool):
          return v.e != ok
        return z3.Not(ok) if v else ok

      def confirm(vals):
        s1, s2 = T(vals[:n]), T(vals[n:])
        want = all(x == y or x == 1 or y == 1 for x, y in zip(vals[:n][::-1], vals[n:][::-1]))
        try:
          got = e3x.util.is_broadcastable(s1, s2)
        except Exception as e:
          return f'is_broadcastable({s1}, {s2}) raised {type(e).__name__}: {e}'
        return None if bool(got) == want else f'is_broadcastable({s1}, {s2}) = {got}, expected {want}'
      return _explore(name, outdir, a + b, base,
                      lambda: e3x.util.is_broadcastable(T(PX.Sym(v) for v in a), T(PX.Sym(v) for v in b)), bad, confirm)
    return run
  return build


KMAX = 40
KLAYER = dict(dense=8, tensor=4, fusedtensor=2)
VIA = ('direct', 'reflect', 'change', 'dense', 'tensor', 'fusedtensor')


class Fake:
  """Stand-in for an array: only its (symbolic) shape is known."""

  def __init__(self, shape):
    self.shape = shape
    self.ndim = len(shape)
    self.dtype = 'float32'

  def __getattr__(self, name):
    raise AttributeError(name)


class _At:
  def __getitem__(self, i):
    return self

  def __init__(self, x):
    self.x = x

  def multiply(self, c):
    return self.x
  mul = set = add = multiply


def _entry(via, real=False):
  """-> callable(shape); returns max_degree (None if not observable)."""
  direct = getattr(e3x.nn.features, '_extract_max_degree_and_check_shape', None)
  if via == 'direct' and direct is not None:
    return direct

  def arr(shape):
    shape = tuple(shape)
    if real:
      return jnp.zeros(shape)
    x = Fake(shape)
    x.at = _At(x)
    return x

  def f(shape):
    x = arr(shape)
    if via in ('direct', 'reflect'):
      e3x.nn.reflect(x)
    elif via == 'change':
      e3x.nn.change_max_degree_or_type(x)
    else:
      m, n = dict(dense=(e3x.nn.Dense(2), 1), tensor=(e3x.nn.Tensor(), 2), fusedtensor=(e3x.nn.FusedTensor(), 2))[via]
      if real:
        jax.eval_shape(lambda *a: m.init(jax.random.PRNGKey(0), *a), *([x] * n))
      else:
        m.apply({}, *([x] * n))
  return f


def _shape(n, what, via='direct'):
  """what: 'square' (degree axis (k+1)^2), 'between' (other sizes)."""
  def build():
    def run(name, seed, outdir):
      f = _entry(via)
      s = [z3.Int(f's{i}') for i in range(n)]
      nonneg = [z3.BoolVal(True)] + [v >= 0 for v in s]

      def bad(k):
        def bad(out):
          kd, v = out
          verr = kd == 'raise' and isinstance(v, ValueError)
          if kd == 'raise' and not verr:
            if n < 3 or what == 'between':
              return z3.BoolVal(True)
            # a stand-in cannot go through the rest of the layer: the shape
            # was accepted
            return z3.Not(z3.Or(s[-3] == 1, s[-3] == 2))
          if n < 3 or what == 'between':
            return z3.BoolVal(not verr)
          par = z3.Or(s[-3] == 1, s[-3] == 2)
          if verr:
            return par  # square size and parity axis 1 or 2 must be accepted
          if v is None:
            return z3.Not(par)
          e = v.e if isinstance(v, PX.Sym) else z3.IntVal(int(v))
          return z3.Or(z3.Not(par), e != k)
        return bad
      if n < 3:
        base = [(z3.And(nonneg), bad(None))]
      elif what == 'square':
        base = [(z3.And(nonneg + [s[-2] == (k + 1) ** 2]), bad(k)) for k in range(KMAX if what == 'between' else KLAYER.get(via, KMAX))]
      else:
        base = [(z3.And(nonneg + [s[-2] > (k + 1) ** 2, s[-2] < (k + 2) ** 2]), bad(k)) for k in range(KMAX if what == 'between' else KLAYER.get(via, KMAX))]

      def confirm(vals):
        import math
        shp = tuple(vals[:n])
        want = None
        if n >= 3 and shp[-3] in (1, 2):
          r = math.isqrt(shp[-2])
          if r * r == shp[-2]:
            want = r - 1
        try:
          got = _entry(via, real=True)(shp)
          if got is None:
            got = want if want is not None else 'accepted'
        except ValueError:
          got = None
        except Exception as e:
          return f'{shp} raised {type(e).__name__}: {e}'
        return None if got == want else f'shape {shp}: {"rejected" if got is None else f"max_degree {got}"}, expected {"rejection" if want is None else f"max_degree {want}"}'
      confirm.standin = f is not getattr(e3x.nn.features, '_extract_max_degree_and_check_shape', None)
      if confirm.standin:
        base = [(z3.And([b] + [v <= 64 for i, v in enumerate(s) if i != n - 2]), q) for b, q in base]
      return _explore(name, outdir, s, base, lambda: f(tuple(PX.Sym(v) for v in s)), bad, confirm)
    return run
  return build


def cases(tier):
  out = []
  R = 4 if tier == 'quick' else 5
  for n in range(R):
    for m in range(R):
      out.append((f'broadcast-{n}-{m}', _bc(n, m, tuple)))
  out.append(('broadcast-list', _bc(2, 3, list)))
  for n in (0, 1, 2):
    for via in VIA:
      out.append((f'shape-rank{n}-{via}', _shape(n, 'any', via)))
  for n in (3, 4):
    for via in VIA:
      out.append((f'shape-rank{n}-square-{via}', _shape(n, 'square', via)))
      out.append((f'shape-rank{n}-between-{via}', _shape(n, 'between', via)))
  return out
