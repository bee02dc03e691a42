"""C05: rotation constructors."""
import math
import jax
import jax.numpy as jnp
import numpy as np
import e3x
from sx import harness as H
from sx import oracle as O
from sx import poly as P

INFO = dict(
    functions=['e3x.so3.rotation', 'e3x.so3.rotation_euler', 'e3x.so3.euler_angles_from_rotation', 'e3x.so3.alignment_rotation', 'e3x.so3.random_rotation', 'e3x.ops.normalize'],
    bounds='all angles (symbolic), all axes of length [1e-3, 1e3], all pairs of vectors of such lengths, all random draws in [0, 1) and perturbations; batch shapes (), (2,), (1, 2)',
    outside='rounding; quality of the random number generator (the draws are free symbolic numbers); rotations within 1e-9 of gimbal lock but not at it',
    explanation='Polynomial identities modulo cos^2+sin^2=1, |u|=1; inverse trigonometric functions are expanded by their defining identities; inequalities by z3.',
    assumptions=['random draws are arbitrary reals in [0, 1)'])


def det3(m):
  return (m[..., 0, 0] * (m[..., 1, 1] * m[..., 2, 2] - m[..., 1, 2] * m[..., 2, 1])
          - m[..., 0, 1] * (m[..., 1, 0] * m[..., 2, 2] - m[..., 1, 2] * m[..., 2, 0])
          + m[..., 0, 2] * (m[..., 1, 0] * m[..., 2, 1] - m[..., 1, 1] * m[..., 2, 0]))


def rodrigues(n, c, s):
  """row-vector matrix of the counterclockwise rotation about unit n."""
  x, y, z = n[..., 0], n[..., 1], n[..., 2]
  o = jnp.zeros_like(x)
  K = jnp.stack([jnp.stack([o, -z, y], -1), jnp.stack([z, o, -x], -1), jnp.stack([-y, x, o], -1)], -2)
  M = jnp.eye(3) * c[..., None, None] + s[..., None, None] * K + (1 - c)[..., None, None] * n[..., :, None] * n[..., None, :]
  return jnp.swapaxes(M, -1, -2)


def _units(names, unit=0.5):
  def f(built):
    for n in names:
      for p in built[n].flat:
        P.declare_angle(p, unit)
  return f


def _rotation(batch, scaled=True):
  def build():
    def prog(u, t):
      R = e3x.so3.rotation(u, t)
      H.static('shape', R.shape == (*batch, 3, 3), str(R.shape))
      n = u / jnp.sqrt(jnp.sum(u * u, -1, keepdims=True))
      out = [H.eq('Rodrigues', R, rodrigues(n, jnp.cos(t), jnp.sin(t))),
             H.eq('orthogonal', R @ jnp.swapaxes(R, -1, -2), jnp.broadcast_to(jnp.eye(3), R.shape)),
             H.eq('axis fixed', (u[..., None, :] @ R)[..., 0, :], u)]
      if not batch:
        out.append(H.eq('det', det3(R), jnp.ones(batch)))
      return out
    return H.Case('', dict(u=H.UnitVec(batch, scale=(1e-3, 1e3) if scaled else None), t=H.Real(batch, -20, 20)), prog,
                  tol=1e-7, angle_units=_units(['t']))
  return build


def _rotation_bcast():
  """one axis with several angles, several axes with one angle."""
  def build():
    def prog(u, t):
      R = e3x.so3.rotation(u[0], t)
      R2 = e3x.so3.rotation(u, t[0])
      f = lambda a, b: rodrigues(a, jnp.cos(b), jnp.sin(b))
      return [H.eq('angles', R, jnp.stack([f(u[0], t[0]), f(u[0], t[1])])),
              H.eq('axes', R2, jnp.stack([f(u[0], t[0]), f(u[1], t[0])]))]
    return H.Case('', dict(u=H.UnitVec((2,)), t=H.Real((2,), -20, 20)), prog, tol=1e-7, angle_units=_units(['t']))
  return build


def _euler(batch):
  def build():
    def prog(a, b, c):
      R = e3x.so3.rotation_euler(a, b, c)
      cs = lambda x: (jnp.cos(x), jnp.sin(x))
      if batch:
        ref = jnp.stack([O.axis_rot(cs(a[i]), 'x') @ O.axis_rot(cs(b[i]), 'y') @ O.axis_rot(cs(c[i]), 'z') for i in range(2)])
      else:
        ref = O.axis_rot(cs(a), 'x') @ O.axis_rot(cs(b), 'y') @ O.axis_rot(cs(c), 'z')
        e = jnp.eye(3)
        ref2 = e3x.so3.rotation(e[0], a) @ e3x.so3.rotation(e[1], b) @ e3x.so3.rotation(e[2], c)
      out = [H.eq('x then y then z', R, ref)]
      if not batch:
        out.append(H.eq('composition of rotation()', R, ref2))
      return out
    return H.Case('', dict(a=H.Real(batch, -20, 20), b=H.Real(batch, -20, 20), c=H.Real(batch, -20, 20)), prog,
                  tol=1e-7, angle_units=_units('abc'))
  return build


class HalfAngle(H.Angle):
  """(cos, sin) with cos in [lo, 1], both bounded away from the poles."""

  def __init__(self, clo):
    super().__init__()
    self.clo = clo

  def build(self, name):
    a = super().build(name)
    i = H._atom_of(self.cs[0])
    P.CTX.atoms[i].lo = self.clo
    return a

  def sample(self, rng, val, mode):
    i, j = map(H._atom_of, self.cs)
    if i not in val:
      val.pop(j, None)
      val[i] = rng.uniform(self.clo, 1.0)
    c = min(1.0, max(self.clo, val[i]))
    s = math.sqrt(1 - c * c)
    if (val[j] if j in val else rng.normal()) < 0:
      s = -s
    val[i], val[j] = c, s


def _euler_inv(batch):
  """generic rotations: extraction then reconstruction is the identity."""
  def build():
    def prog(a, b, c):
      R = O.axis_rot(a, 'x') @ O.axis_rot(b, 'y') @ O.axis_rot(c, 'z')
      Rb = jnp.stack([R, R.T @ jnp.eye(3)])[:1] if batch else R
      x, y, z = e3x.so3.euler_angles_from_rotation(Rb)
      H.static('shape', x.shape == y.shape == z.shape == ((1,) if batch else ()), str(x.shape))
      S = e3x.so3.rotation_euler(x, y, z)
      out = [H.eq('rebuilt', S, Rb), H.eq('cos a', jnp.cos(x).reshape(()), a[0]), H.eq('sin a', jnp.sin(x).reshape(()), a[1]),
             H.eq('sin b', jnp.sin(y).reshape(()), b[1]), H.eq('cos c', jnp.cos(z).reshape(()), c[0]), H.eq('sin c', jnp.sin(z).reshape(()), c[1])]
      return out
    return H.Case('', dict(a=H.Angle(), b=HalfAngle(1e-3), c=H.Angle()), prog, tol=1e-6, z3_timeout=20)
  return build


def _euler_gimbal(sgn):
  def build():
    def prog(a, c):
      b = jnp.array([0.0, sgn]).astype(a.dtype)
      R = O.axis_rot(a, 'x') @ O.axis_rot(b, 'y') @ O.axis_rot(c, 'z')
      x, y, z = e3x.so3.euler_angles_from_rotation(R)
      return [H.eq('rebuilt', e3x.so3.rotation_euler(x, y, z), R)]
    return H.Case('', dict(a=H.Angle(), c=H.Angle()), prog, tol=1e-6)
  return build


def _align(mode, batch=False):
  def build():
    def prog(u, v, **kw):
      if mode == 'anti':
        v = -u * kw['m']
      elif mode == 'par':
        v = u * kw['m']
      ub, vb = (jnp.stack([u, u]), jnp.stack([v, v])) if batch else (u, v)
      R = e3x.so3.alignment_rotation(ub, vb)
      H.static('shape', R.shape == (*ub.shape[:-1], 3, 3), str(R.shape))
      un = u / jnp.sqrt(jnp.sum(u * u))
      vn = v / jnp.sqrt(jnp.sum(v * v))
      out = []
      if batch:
        out.append(H.eq('batch', R[0], R[1]))
        R = R[0]
      out += [H.eq('maps u to v', un @ R, vn)]
      if mode in ('anti', 'par'):
        out += [H.eq('orthogonal', R @ R.T, jnp.eye(3)), H.eq('det', det3(R), jnp.ones(()))]
      if mode == 'par':
        out.append(H.eq('identity', R, jnp.eye(3)))
      return out
    ins = dict(u=H.UnitVec((), scale=(1e-2, 1e2)), v=H.UnitVec((), scale=(1e-2, 1e2)))
    if mode in ('anti', 'par'):
      ins['v'] = H.Const(np.zeros(3))
      ins['m'] = H.Real((), 1e-2, 1e2)
    return H.Case('', ins, prog, tol=1e-6, z3_timeout=30)
  return build


def _align_frame(sign, claim, near=False):
  """u = ex Q, v = (c ex + s ey) Q with a symbolic frame Q."""
  def build():
    def prog(q, t, n, m):
      Q = O.quat_rot(q)
      u = n * Q[0]
      v = m * (t[0] * Q[0] + t[1] * Q[1])
      R = e3x.so3.alignment_rotation(u, v)
      if claim == 'map':
        return [H.eq('maps u to v', Q[0] @ R, t[0] * Q[0] + t[1] * Q[1])]
      if claim == 'shortest':
        # the plane's normal is fixed and the angle is the one between u and v
        return [H.eq('normal fixed', Q[2] @ R, Q[2]), H.eq('in plane', Q[1] @ R, -t[1] * Q[0] + t[0] * Q[1])]
      return [H.eq('orthogonal', R @ R.T, jnp.eye(3)), H.eq('det', det3(R), jnp.ones(()))]
    t = SignedAngle(sign, near)
    return H.Case('', dict(q=H.Quat(), t=t, n=H.Real((), 1e-2, 1e2), m=H.Real((), 1e-2, 1e2)), prog, tol=1e-6, z3_timeout=30)
  return build


def _align_pair():
  """two free unit vectors at an obtuse angle, including nearly antiparallel."""
  def build():
    def prog(u, v):
      R = e3x.so3.alignment_rotation(u, v)
      return [H.eq('maps u to v', u @ R, v)]
    return H.Case('', dict(u=H.UnitVec(()), v=H.UnitVec(())), prog, tol=1e-6, z3_timeout=30,
                  assume=lambda u, v: jnp.sum(u * v) <= -0.5)
  return build


def _align_near(k, perm):
  """nearly antiparallel: u anywhere on the sphere (two angles), v in one of
  two perpendicular planes through u; the matrix is a proper rotation."""
  def build():
    def prog(a, b, t):
      z = jnp.zeros_like(a[0])
      u = jnp.stack([a[0], a[1] * b[0], a[1] * b[1]])
      w = jnp.stack([-a[1], a[0] * b[0], a[0] * b[1]]) if k == 0 else jnp.stack([z, -b[1], b[0]])
      u, w = (jnp.roll(x, perm) for x in (u, w))
      v = t[0] * u + t[1] * w
      R = e3x.so3.alignment_rotation(u, v)
      return [H.eq('orthogonal', R @ R.T, jnp.eye(3)), H.eq('det', det3(R), jnp.ones(())), H.eq('maps u to v', u @ R, v)]
    return H.Case('', dict(a=H.Angle(), b=H.Angle(), t=SignedAngle(-1, True)), prog, tol=1e-6, z3_timeout=30)
  return build


class SignedAngle(H.Angle):
  """angle in [0, pi]; sign: of the cosine; near: within 5e-4 of antiparallel."""

  def __init__(self, sign, near=False):
    super().__init__()
    self.sign, self.near = sign, near

  def build(self, name):
    a = super().build(name)
    c, s = (P.CTX.atoms[H._atom_of(x)] for x in self.cs)
    s.lo = 0.0
    s.rule = None
    c.rule = (2, P.sub(1.0, P.mul(self.cs[1], self.cs[1])))
    if self.near:
      s.hi, c.hi = 5e-4, -0.9
    elif self.sign > 0:
      c.lo = 0.0
    else:
      c.hi = -1e-9
      s.lo = 2e-3
    return a

  def sample(self, rng, val, mode):
    i, j = map(H._atom_of, self.cs)
    val.pop(i, None)
    if self.near:
      th = math.pi - rng.uniform(0, 4e-4)
    elif self.sign > 0:
      th = rng.uniform(0, math.pi / 2 - 1e-6)
    else:
      th = rng.uniform(math.pi / 2 + 1e-6, math.pi - 3e-3)
    if j in val and not self.near:
      th = math.asin(min(1.0, max(0.0, val[j])))
      th = th if self.sign > 0 else math.pi - th
    val[i], val[j] = math.cos(th), math.sin(th)


def _call(u, p, num):
  with H.draws(uniform=u):
    return e3x.so3.random_rotation(jax.random.PRNGKey(0), perturbation=p, num=num)


def _rand_ortho(half, p, num=1):
  def build():
    def prog(u, q=None):
      R = _call(u, q if p is None else p, num)
      H.static('shape', R.shape == ((num, 3, 3) if num > 1 else (3, 3)), str(R.shape))
      R = R.reshape(-1, 3, 3)[-1]
      return [H.eq('orthogonal', R @ R.T, jnp.eye(3)), H.eq('det', det3(R), jnp.ones(()))]
    ins = dict(u=Draw(half, num))
    if p is None:
      ins['q'] = H.Real((), 0.0, 1.0)
    return H.Case('', ins, prog, tol=1e-6, z3_timeout=30, assume=_generic, coef_tol=1e-12, drop=1e-15)
  return build


class Draw(H.Real):
  """(num, 3) uniform draws; column 1 in the lower or upper half."""

  def __init__(self, half, num=1):
    super().__init__((num, 3), 0.0, 1.0)
    self.half = half

  def build(self, name):
    a = super().build(name)
    for i in range(a.shape[0]):
      at = P.CTX.atoms[H._atom_of(a[i, 1])]
      if self.half == 0:
        at.hi = 0.5
      else:
        at.lo, at.hi = 0.5 + 1e-9, 1.0 - 1e-9
        P.CTX.atoms[H._atom_of(a[i, 0])].hi = 1.0 - 1e-9
    return a

  def sample(self, rng, val, mode):
    for i in range(self.shape[0]):
      for k in range(3):
        aid = H._atom_of(self.sym[i, k])
        if k == 1 and aid not in val:
          val[aid] = rng.uniform(0, 0.5) + 0.5 * self.half
    super().sample(rng, val, 'plain')
    for p in self.sym.flat:
      aid = H._atom_of(p)
      val[aid] = min(abs(val[aid]), 0.9999999)


def _generic(u, **kw):
  r = jnp.sqrt(1 - u[..., 0]) * jnp.sin(2 * jnp.pi * u[..., 1])
  return r * r <= 1 - 1e-9


def _rand_angle(half, p):
  """rotation angle <= p pi  <=>  trace >= 1 + 2 cos(p pi)."""
  def build():
    def prog(u, q):
      R = _call(u, q, 1)
      tr = R[0, 0] + R[1, 1] + R[2, 2]
      return [H.le('angle', jnp.asarray(1 + 2 * math.cos(math.pi * p)), tr)]
    return H.Case('', dict(u=Draw(half), q=H.Real((), p, p)), prog, tol=1e-6, z3_timeout=30, assume=_generic, coef_tol=1e-12, drop=1e-15)
  return build


def _rand_ident(half, p):
  def build():
    def prog(u):
      return [H.eq('identity', _call(u, p, 1), jnp.eye(3))]
    return H.Case('', dict(u=Draw(half)), prog, tol=1e-6, z3_timeout=30, assume=_generic, coef_tol=1e-12, drop=1e-15)
  return build


def _rand_clamp(half, p, q):
  def build():
    def prog(u):
      return [H.eq('clamped', _call(u, p, 1), _call(u, q, 1))]
    return H.Case('', dict(u=Draw(half)), prog, tol=1e-6, z3_timeout=30, assume=_generic, coef_tol=1e-12, drop=1e-15)
  return build


def _rand_special(u):
  """identity draw (scalar part 1): every perturbation gives the identity."""
  def build():
    def prog(p):
      R = _call(jnp.asarray([u]), p, 1)
      return [H.eq('identity', R, jnp.eye(3), tol=1e-5)]
    return H.Case('', dict(p=H.Real((), 0.0, 1.0)), prog, tol=1e-5)
  return build


def cases(tier):
  out = [('rotation', _rotation(())), ('rotation-unit', _rotation((), False)), ('rotation-batch', _rotation((2,), False)),
         ('rotation-broadcast', _rotation_bcast()), ('rotation-batch2', _rotation((1, 2), False)),
         ('euler', _euler(())), ('euler-batch', _euler((2,))),
         ('euler-inverse', _euler_inv(False)), ('euler-inverse-batch', _euler_inv(True)),
         ('euler-gimbal+', _euler_gimbal(1.0)), ('euler-gimbal-', _euler_gimbal(-1.0)),
         ('align-parallel', _align('par')), ('align-antiparallel', _align('anti')),
         ('align-antiparallel-batch', _align('anti', True))]
  for sg, nm in ((1, 'acute'), (-1, 'obtuse')):
    for cl in ('map', 'shortest', 'proper'):
      out.append((f'align-{nm}-{cl}', _align_frame(sg, cl)))
  out.append(('align-near-map', _align_pair()))
  for k in (0, 1):
    for perm in (0, 1):
      out.append((f'align-near-proper-{k}{perm}', _align_near(k, perm)))
  for h in (0, 1):
    out.append((f'random-proper-{h}', _rand_ortho(h, None)))
    out.append((f'random-proper-p1-{h}', _rand_ortho(h, 1.0)))
    out.append((f'random-proper-num2-{h}', _rand_ortho(h, None, 2)))
    for p in (0.1, 0.25, 0.5, 0.75, 0.9):
      out.append((f'random-angle-{p}-{h}', _rand_angle(h, p)))
    out.append((f'random-identity-{h}', _rand_ident(h, 0.0)))
    out.append((f'random-clamp-low-{h}', _rand_clamp(h, -0.3, 0.0)))
    out.append((f'random-clamp-high-{h}', _rand_clamp(h, 1.5, 1.0)))
  out.append(('random-special', _rand_special([0.0, 0.25, 0.3])))
  out.append(('random-special2', _rand_special([0.0, 0.75, 0.9])))
  return out
