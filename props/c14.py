"""C14: Tensor, FusedTensor, TensorDense."""
import itertools
import math
import jax
import jax.numpy as jnp
import numpy as np
import e3x
from sx import harness as H
from sx import oracle as O
from props.c13 import refl

INFO = dict(
    functions=['e3x.nn.Tensor', 'e3x.nn.FusedTensor', 'e3x.nn.TensorDense', 'e3x.nn.modules._make_tensor_product_mask', 'e3x.so3.clebsch_gordan'],
    bounds='all weights and inputs; all rotations (finite rotations about x, y, z for small degrees; generators about x and z, i.e. all of SO(3), for the rest); max degrees of both inputs and output 0..2, output up to 3 (quick) / 0..3, output up to 4 (thorough), all parity formats, both component orders, 1..2 channels, batch dimensions 0..1',
    outside='larger degrees; float rounding; reduced-precision dtypes',
    explanation='The layers are applied with symbolic parameters and inputs. Outputs are compared with the documented coupling sums, and equivariance is an identity over inputs, weights and rotation: with finite rotations, or as d/dt f(D(t)x, D(t)y) = D\'(t) f at t=0 for all inputs (equivalent because rotations form a connected group).',
    assumptions=['Clebsch-Gordan coefficients in the reference sum come from e3x.so3.clebsch_gordan, decided separately by C03'])


def phys(l, p, P):
  return l % 2 if P == 1 else p


def expected_out(L1, L2, L3, P1, P2, incl):
  if P1 == P2 == 1 and 0 in (L1, L2, L3):
    return 1
  return 2 if incl else 1


def equivariance(f, xs, Ls, L3, P3, axes, cart, t=None):
  """output and claims that f is equivariant under rotations about the axes and under reflection."""
  dt = xs[0].dtype
  out = []
  if t is not None:
    y = f(*xs)
    rot = lambda v, D: jnp.einsum('...lf,lm->...mf', v, D)
    for axis in axes:
      Ds = [O.dmat(t, L, axis, cart) for L in Ls]
      D3 = O.dmat(t, L3, axis, cart)
      out.append(H.eq(f'rotation {axis}', f(*[rot(x, D) for x, D in zip(xs, Ds)]), rot(y, D3)))
  else:
    y, df = jax.linearize(f, *xs)
    for axis in axes:
      G = lambda L: jax.scipy.linalg.block_diag(*[jnp.asarray(O.generator(l, axis, cart), dt) for l in range(L + 1)])
      act = lambda v, L: jnp.einsum('...lf,lm->...mf', v, G(L))
      out.append(H.eq(f'rotation {axis}', df(*[act(x, L) for x, L in zip(xs, Ls)]), act(y, L3)))
  s = [refl(L, x.shape[-3], dt) for x, L in zip(xs, Ls)]
  out.append(H.eq('reflection', f(*[a * x for a, x in zip(s, xs)]), refl(L3, P3, dt) * y))
  return y, out


def tensor_ref(x1, x2, k, L1, L2, L3, P3, cart):
  """documented sum over allowed couplings."""
  P1, P2 = x1.shape[-3], x2.shape[-3]
  cg = np.asarray(e3x.so3.clebsch_gordan(L1, L2, L3, cartesian_order=cart))
  rows = []
  sl = lambda l: slice(l * l, (l + 1) ** 2)
  for p3 in range(P3):
    deg = []
    for c in range(L3 + 1):
      acc = jnp.zeros((*x1.shape[:-3], 2 * c + 1, x1.shape[-1]), x1.dtype)
      for (p1, a), (p2, b) in itertools.product(itertools.product(range(P1), range(L1 + 1)), itertools.product(range(P2), range(L2 + 1))):
        if not abs(a - b) <= c <= a + b:
          continue
        if (phys(a, p1, P1) + phys(b, p2, P2)) % 2 != phys(c, p3, P3):
          continue
        acc = acc + k[p1, a, p2, b, p3, c] * jnp.einsum('...lf,...mf,lmn->...nf', x1[..., p1, sl(a), :], x2[..., p2, sl(b), :], cg[sl(a), sl(b), sl(c)])
      deg.append(acc)
    rows.append(jnp.concatenate(deg, axis=-2))
  return jnp.stack(rows, axis=-3)


def fused_ref(x1, x2, par, L1, L2, L3, P3, cart):
  P1, P2 = x1.shape[-3], x2.shape[-3]
  mx = max(L1, L2, L3)
  d = math.ceil(mx / 2)
  cg = np.asarray(e3x.so3.clebsch_gordan(d, d, mx, cartesian_order=cart))[d * d:(d + 1) ** 2, d * d:(d + 1) ** 2]
  sl = lambda l: slice(l * l, (l + 1) ** 2)

  def mats(x, L, we, wo):
    P = x.shape[-3]
    out = [0.0, 0.0]
    for p in range(P):
      for l in range(L + 1):
        par_ = phys(l, p, P)
        w = (we, wo)[par_][l]
        out[par_] = out[par_] + jnp.einsum('...nf,f,lmn->...lmf', x[..., p, sl(l), :], w, cg[..., sl(l)])
    z = jnp.zeros((*x.shape[:-3], 2 * d + 1, 2 * d + 1, x.shape[-1]), x.dtype)
    return [z + o for o in out]
  X = mats(x1, L1, par['kernel_e1'], par['kernel_o1'])
  Y = mats(x2, L2, par['kernel_e2'], par['kernel_o2'])
  mm = lambda a, b: jnp.einsum('...lmf,...mnf->...lnf', a, b)
  vec = lambda z, w: jnp.concatenate([jnp.einsum('...lmf,f,lmn->...nf', z, w[c], cg[..., sl(c)]) for c in range(L3 + 1)], axis=-2)
  e = vec(mm(X[0], Y[0]), par['kernel_eee']) + vec(mm(X[1], Y[1]), par['kernel_ooe'])
  o = vec(mm(X[0], Y[1]), par['kernel_eoo']) + vec(mm(X[1], Y[0]), par['kernel_oeo'])
  if P3 == 2:
    return jnp.stack([e, o], axis=-3)
  return jnp.concatenate([(e, o)[c % 2][..., sl(c), :] for c in range(L3 + 1)], axis=-2)[..., None, :, :]


def _tensor(fused, L1, L2, L3, P1, P2, incl, cart, axes, finite, F=2, batch=(), default=False):
  def build():
    cls = e3x.nn.FusedTensor if fused else e3x.nn.Tensor
    kw0 = {} if fused else dict(kernel_init=jax.nn.initializers.zeros)
    mod = cls(max_degree=None if default else L3, include_pseudotensors=incl, cartesian_order=cart, **kw0)
    n1, n2, n3 = [(L + 1) ** 2 for L in (L1, L2, L3)]
    sh1, sh2 = (*batch, P1, n1, F), (*batch, P2, n2, F)
    par = H.Params(mod, jax.ShapeDtypeStruct(sh1, jnp.float32), jax.ShapeDtypeStruct(sh2, jnp.float32))
    P3 = expected_out(L1, L2, L3, P1, P2, incl)

    def prog(x1, x2, t=None, **kw):
      y, out = equivariance(lambda a, b: par.apply(kw, a, b), [x1, x2], [L1, L2], L3, P3, axes, cart, t)
      H.static('shape', y.shape == (*batch, P3, n3, F) and y.dtype == x1.dtype, f'{y.shape} {y.dtype}')
      if fused:
        tree = par.tree_of(kw)['params']
        ref = fused_ref(x1, x2, tree, L1, L2, L3, P3, cart)
      else:
        k = kw[par.names[0]]
        H.static('kernel', len(par.names) == 1 and k.shape == (P1, L1 + 1, P2, L2 + 1, P3, L3 + 1, F), f'{k.shape}')
        ref = tensor_ref(x1, x2, k, L1, L2, L3, P3, cart)
      return [H.eq('coupling sum', y, ref)] + out
    inp = dict(x1=H.Real(sh1), x2=H.Real(sh2), **par.inputs)
    if finite:
      inp['t'] = H.Angle()
    return H.Case('', inp, prog)
  return build


def _dense(fused, L, L3, P, incl, cart, axes, feats, bias=True):
  def build():
    mod = e3x.nn.TensorDense(features=feats, max_degree=L3, include_pseudotensors=incl, cartesian_order=cart, use_fused_tensor=fused, use_bias=bias)
    F = 2
    sh = (P, (L + 1) ** 2, F)
    par = H.Params(mod, jax.ShapeDtypeStruct(sh, jnp.float32))
    M = L if L3 is None else L3
    P3 = expected_out(L, L, M, P, P, incl)
    Fo = F if feats is None else feats

    def prog(x, **kw):
      f = lambda a: par.apply(kw, a)
      y, out = equivariance(f, [x], [L], M, P3, axes, cart)
      H.static('shape', y.shape == (P3, (M + 1) ** 2, Fo), str(y.shape))
      tree = par.tree_of(kw)['params']
      sub = [k for k in tree if 'tensor' in k]
      if 'dense' in tree and len(sub) == 1:
        h = e3x.nn.Dense(features=2 * Fo, use_bias=bias).apply({'params': tree['dense']}, x)
        cls = e3x.nn.FusedTensor if fused else e3x.nn.Tensor
        T = cls(max_degree=M, include_pseudotensors=incl, cartesian_order=cart)
        out.append(H.eq('tensor of dense', y, T.apply({'params': tree[sub[0]]}, h[..., :Fo], h[..., Fo:])))
      return out
    return H.Case('', dict(x=H.Real(sh), **par.inputs), prog)
  return build


def cases(tier):
  out = []
  Lm, Lo = (2, 3) if tier == 'quick' else (3, 4)
  i = 0
  for L1, L2 in itertools.product(range(Lm + 1), repeat=2):
    for L3 in range(min(L1 + L2, Lo) + 1):
      for P1, P2, incl in itertools.product((1, 2), (1, 2), (False, True)):
        i += 1
        cart = i % 3 != 0
        for fused in (False, True):
          tag = f'{"fused" if fused else "tensor"}-{L1}{L2}{L3}-{P1}{P2}{int(incl)}'
          small = max(L1, L2, L3) <= 1
          default = L3 == max(L1, L2) and i % 2 == 0
          F = 2 if max(L1, L2) <= 1 or (max(L1, L2) <= 2 and P1 * P2 == 1) else 1
          out.append((tag, _tensor(fused, L1, L2, L3, P1, P2, incl, cart, 'xz', small, F, (2,) if small and i % 4 == 0 else (), default)))
  for fused in (False, True):
    for L, L3, P, incl, feats in [(0, None, 1, True, None), (1, None, 1, True, 1), (1, 2, 1, True, 1), (1, None, 2, True, None), (1, None, 2, False, 1), (2, None, 1, False, 1), (1, 2, 2, False, 1)]:
      out.append((f'tensordense-{int(fused)}-{L}-{L3}-{P}{int(incl)}-{feats}', _dense(fused, L, L3, P, incl, (L + P) % 2 == 0, 'xz', feats, bias=incl)))
  return out
