"""C24: configured defaults take effect in every later call."""
import contextlib

import flax.linen
import jax
import jax.numpy as jnp
import numpy as np
import e3x
from e3x import nn, so3
from sx import harness as H

INFO = dict(
    functions=['e3x.Config.set_cartesian_order', 'e3x.Config.set_normalization', 'e3x.Config.set_use_fused_tensor',
               'e3x.so3.spherical_harmonics', 'e3x.so3.solid_harmonics', 'e3x.so3.clebsch_gordan', 'e3x.so3.clebsch_gordan_for_degrees',
               'e3x.so3.tensor_to_irreps', 'e3x.so3.irreps_to_tensor', 'e3x.so3.wigner_d', 'e3x.nn.basis', 'e3x.nn.ExponentialBasis',
               'e3x.nn.Tensor', 'e3x.nn.FusedTensor', 'e3x.nn.TensorDense', 'e3x.nn.MessagePass', 'e3x.nn.SelfAttention', 'e3x.nn.MultiHeadAttention'],
    bounds='all real inputs and parameters; histories of up to four setter calls (including calls without argument and rejected calls) mixed with library calls; '
           'all combinations of the three options; degrees up to 2',
    outside='modules constructed before the configuration call (they keep the value they were constructed with); functions already traced by jax.jit',
    explanation='After the configuration history the function is traced twice, without the option and with the option passed explicitly; z3 decides that no input separates the two traces.',
    assumptions=[])

NORMS = ('racah', 'schmidt', '4pi', 'orthonormal')
DOC = dict(cartesian_order=True, use_fused_tensor=False, normalization='racah')  # documented defaults
SET = dict(cartesian_order='set_cartesian_order', use_fused_tensor='set_use_fused_tensor', normalization='set_normalization')


@contextlib.contextmanager
def fresh():
  old = {k: getattr(e3x.Config, k) for k in SET}
  try:
    yield
  finally:
    for k, v in old.items():
      setattr(e3x.Config, k, v)


def replay_history(hist, between=None):
  """Runs setter calls; returns the settings a user expects afterwards."""
  want = dict(DOC)
  for k, v in hist:
    if v == 'default':
      getattr(e3x.Config, SET[k])()
      want[k] = DOC[k]
    elif v == 'bad':
      try:
        e3x.Config.set_normalization('no-such-normalization')
        H.static('invalid normalization is rejected', False, 'set_normalization accepted an invalid value')
      except ValueError:
        pass
    else:
      getattr(e3x.Config, SET[k])(v)
      want[k] = v
    if between is not None:
      between()
  return want


def _leaves(y):
  return jax.tree_util.tree_leaves(y)


def func(f, inputs, hist, opts, mixed=False, tol=1e-9):
  """f(kw, **inputs) without options == with the configured ones."""
  def build():
    def prog(**a):
      with fresh():
        want = replay_history(hist, (lambda: f({}, **a)) if mixed else None)
        got = _leaves(f({}, **a))
        # nothing but the explicit options may matter for the reference
        for k in SET:
          setattr(e3x.Config, k, DOC[k])
        ref = _leaves(f({k: want[k] for k in opts}, **a))
        for k in SET:
          setattr(e3x.Config, k, want[k])
        other = {k: (not want[k] if isinstance(want[k], bool) else '4pi' if want[k] != '4pi' else 'racah') for k in opts}
        given = _leaves(f(other, **a))
        for k in SET:
          setattr(e3x.Config, k, DOC[k])
        gref = _leaves(f(other, **a))
      out = []
      for nm, p, q in (('default', got, ref), ('explicit', given, gref)):
        H.static(f'{nm}: same structure', len(p) == len(q) and all(x.shape == y.shape for x, y in zip(p, q)), f'{[x.shape for x in p]} vs {[y.shape for y in q]}')
        out += [H.eq(f'{nm}{i}', x, y) for i, (x, y) in enumerate(zip(p, q))]
      return out
    return H.Case('', inputs(), prog, tol=tol)
  return build


def module(make, arrays, call, hist, opts, mixed=False):
  """make(**opts) -> module; arrays: name -> shape; call(module, variables, **arrays)."""
  def build():
    with fresh():
      want = replay_history(hist)
      for k in SET:
        setattr(e3x.Config, k, DOC[k])
      ref = make(**{k: want[k] for k in opts})
      sds = {k: jax.ShapeDtypeStruct(s, jnp.float32) for k, s in arrays.items()}
      tree = jax.eval_shape(lambda key, a: call(ref, None, key, **a), jax.random.PRNGKey(0), sds)
    leaves, td = jax.tree_util.tree_flatten(tree)
    names = [f'par{i}' for i in range(len(leaves))]

    def prog(**a):
      var = jax.tree_util.tree_unflatten(td, [a.pop(n) for n in names])
      with fresh():
        replay_history(hist, (lambda: make()) if mixed else None)
        m = make()
        own = jax.eval_shape(lambda key: call(m, None, key, **a), jax.random.PRNGKey(0))
        H.static('same parameters', jax.tree_util.tree_structure(own) == td and [x.shape for x in jax.tree_util.tree_leaves(own)] == [x.shape for x in leaves],
                 f'{jax.tree_util.tree_map(jnp.shape, own)} vs {jax.tree_util.tree_map(jnp.shape, tree)}')
        got, used = watched(lambda: call(m, var, None, **a))
        if FU in opts:
          H.static('kind of tensor product', used == {nn.FusedTensor if want[FU] else nn.Tensor}, f'use_fused_tensor={want[FU]} but {[c.__name__ for c in used]} computes the tensor product')
        for k in SET:
          setattr(e3x.Config, k, DOC[k])
        exp = call(make(**{k: want[k] for k in opts}), var, None, **a)
      H.static('same shape', got.shape == exp.shape, f'{got.shape} vs {exp.shape}')
      return [H.eq('default', got, exp)]
    inp = {k: H.Real(s, -1e3, 1e3) for k, s in arrays.items()}
    inp.update({n: H.Real(l.shape, -1e3, 1e3) for n, l in zip(names, leaves)})
    return H.Case('', inp, prog, tol=1e-6)
  return build


def watched(f):
  """f() and the tensor product modules it uses"""
  used = set()

  def look(fn, args, kwargs, context):
    if isinstance(context.module, (nn.Tensor, nn.FusedTensor)):
      used.add(type(context.module))
    return fn(*args, **kwargs)
  with flax.linen.intercept_methods(look):
    return f(), used


def go(m, var, key, args, **kw):
  return m.init(key, *args, **kw) if var is None else m.apply(var, *args, **kw)


def setters(seq):
  """a pure history of setter calls; the values are symbolic where they can be."""
  def build():
    def prog(b0, b1, b2):
      bs = iter((b0, b1, b2))
      with fresh():
        want = dict(DOC)
        sym = {k: None for k in SET}
        for k, v in seq:
          if v == 'sym':
            w = next(bs)
            getattr(e3x.Config, SET[k])(w)
            want[k] = w
          elif v == 'default':
            getattr(e3x.Config, SET[k])()
            want[k] = DOC[k]
          elif v == 'bad':
            try:
              e3x.Config.set_normalization('no-such-normalization')
              H.static('invalid normalization is rejected', False, 'accepted')
            except ValueError:
              pass
          else:
            getattr(e3x.Config, SET[k])(v)
            want[k] = v
        got = {k: getattr(e3x.Config, k) for k in SET}
      out = []
      for k in SET:
        if isinstance(want[k], (bool, str)):
          H.static(k, got[k] == want[k] and type(got[k]) is type(want[k]), f'Config.{k} = {got[k]!r}, expected {want[k]!r}')
        else:
          out.append(H.true(k, jnp.asarray(got[k]) == want[k]))
      out.append(H.true('inputs', b0 | ~b0))
      return out
    return H.Case('', dict(b0=H.Bool(()), b1=H.Bool(()), b2=H.Bool(())), prog)
  return build


R3 = lambda: dict(r=H.UnitVec((), None))
VEC = lambda: dict(r=H.UnitVec((), (1e-3, 1e3)))
CO, NO, FU = 'cartesian_order', 'normalization', 'use_fused_tensor'


def rot_of(v):
  """a rotation matrix from a unit quaternion"""
  w, x, y, z = v
  return jnp.stack([jnp.stack([1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)]),
                    jnp.stack([2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)]),
                    jnp.stack([2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)])])


def traceless(m):
  s = jnp.stack([jnp.stack([m[0], m[1], m[2]]), jnp.stack([m[1], m[3], m[4]]), jnp.stack([m[2], m[4], -m[0] - m[3]])])
  return s


def cases(tier):
  out = []
  deep = tier == 'thorough'
  fns = dict(
      spherical_harmonics=(lambda kw, r: so3.spherical_harmonics(r, 3, **kw), VEC, (CO, NO)),
      spherical_harmonics_normalized=(lambda kw, r: so3.spherical_harmonics(r, 2, True, **kw), R3, (CO, NO)),
      solid_harmonics=(lambda kw, r: so3.solid_harmonics(r, 3, **kw), lambda: dict(r=H.Real((3,), -1e3, 1e3)), (CO,)),
      clebsch_gordan=(lambda kw, r: jnp.einsum('i,ijk->jk', r, so3.clebsch_gordan(1, 2, 2, **kw)), lambda: dict(r=H.Real((4,), -1e3, 1e3)), (CO,)),
      clebsch_gordan_for_degrees=(lambda kw, r: jnp.einsum('i,ijk->jk', r, so3.clebsch_gordan_for_degrees(1, 2, 2, **kw)), lambda: dict(r=H.Real((3,), -1e3, 1e3)), (CO,)),
      tensor_to_irreps=(lambda kw, m: so3.tensor_to_irreps(traceless(m), 2, **kw), lambda: dict(m=H.Real((5,), -1e3, 1e3)), (CO, NO)),
      tensor_to_irreps1=(lambda kw, m: so3.tensor_to_irreps(m, 1, **kw), lambda: dict(m=H.Real((3,), -1e3, 1e3)), (CO, NO)),
      irreps_to_tensor=(lambda kw, m: so3.irreps_to_tensor(m, 2, **kw), lambda: dict(m=H.Real((5,), -1e3, 1e3)), (CO, NO)),
      irreps_to_tensor1=(lambda kw, m: so3.irreps_to_tensor(m, 1, **kw), lambda: dict(m=H.Real((2, 3), -1e3, 1e3)), (CO, NO)),
      wigner_d=(lambda kw, q: so3.wigner_d(rot_of(q), 2, **kw), lambda: dict(q=H.Real((4,), -1, 1)), (CO,)),
      basis=(lambda kw, r: nn.basis(r, max_degree=2, num=2, radial_fn=lambda x, n: jnp.stack([x, x * x], -1), **kw), VEC, (CO,)),
      basis_angular=(lambda kw, r: nn.basis(r, max_degree=1, num=1, radial_fn=lambda x, n: x[..., None],
                                            angular_fn=lambda r, max_degree, cartesian_order: so3.solid_harmonics(r, max_degree, cartesian_order=cartesian_order), **kw), VEC, (CO,)),
      ExponentialBasis=(lambda kw, r: nn.ExponentialBasis().apply({'params': {'gamma': jnp.ones(())}}, r, max_degree=2, num=2,
                                                                  radial_fn=lambda x, n, gamma: jnp.stack([x, gamma * x * x], -1), **kw), VEC, (CO,)),
  )
  hists = dict(
      none=(),
      cartFalse=((CO, False),),
      cartFalse_TrueFalse=((CO, False), (CO, True), (CO, False)),
      cartBack=((CO, False), (CO, 'default')),
      fused=((FU, True), (CO, False)),
  )
  for n in NORMS:
    hists[f'norm-{n}'] = ((NO, n),)
    hists[f'norm-{n}-cart'] = ((NO, '4pi'), (CO, False), (NO, n), (NO, 'bad'))
  hists['normBack'] = ((NO, 'orthonormal'), (NO, 'default'), (CO, False))
  for f, (fn, inp, opts) in fns.items():
    for h, seq in hists.items():
      if not deep and NO not in opts and h.startswith('norm') and h not in ('norm-4pi', 'norm-schmidt-cart'):
        continue
      out.append((f'{f}-{h}', func(fn, inp, seq, opts, mixed=len(seq) > 1)))

  x2 = dict(x=(1, 2, 4, 1), y=(1, 2, 4, 1))
  kz = jax.nn.initializers.zeros
  tensor = lambda m, v, k, x, y: go(m, v, k, (x, y))
  one = lambda m, v, k, x: go(m, v, k, (x,))
  dst, src = jnp.array([0, 1, 1]), jnp.array([1, 0, 0])

  def graph(m, v, k, x, b):
    return go(m, v, k, (x, b), dst_idx=dst, src_idx=src, num_segments=2)

  def self_graph(m, v, k, x, b):
    return go(m, v, k, (x, b), dst_idx=dst, src_idx=src, num_segments=2)

  def heads(m, v, k, q, x, b):
    return go(m, v, k, (q, x, b), dst_idx=dst, src_idx=src, num_segments=2)
  mods = dict(
      Tensor=(lambda **kw: nn.Tensor(max_degree=2, kernel_init=kz, **kw), x2, tensor, (CO,)),
      FusedTensor=(lambda **kw: nn.FusedTensor(max_degree=2, **kw), x2, tensor, (CO,)),
      TensorDense=(lambda **kw: nn.TensorDense(features=1, max_degree=1, **kw),
                   dict(x=(1, 2, 4, 1)), one, (CO, FU)),
      MessagePass=(lambda **kw: nn.MessagePass(**kw), dict(x=(2, 1, 4, 1), b=(3, 1, 4, 2)), graph, (CO, FU)),
      SelfAttention=(lambda **kw: nn.SelfAttention(num_heads=1, **kw), dict(x=(2, 1, 4, 1), b=(3, 1, 4, 2)), self_graph, (CO, FU)),
      MultiHeadAttention=(lambda **kw: nn.MultiHeadAttention(num_heads=1, **kw), dict(q=(2, 1, 4, 1), x=(2, 1, 4, 1), b=(3, 1, 4, 2)), heads, (CO, FU)),
  )
  mh = dict(
      none=(),
      cartFalse=((CO, False),),
      fused=((FU, True),),
      both=((FU, True), (NO, 'orthonormal'), (CO, False)),
      back=((CO, False), (FU, True), (CO, 'default'), (FU, 'default')),
      fusedBack=((FU, True), (CO, False), (FU, False)),
  )
  for k, (mk, arr, call, opts) in mods.items():
    for h, seq in mh.items():
      out.append((f'{k}-{h}', module(mk, arr, call, seq, opts, mixed=len(seq) > 1)))

  seqs = dict(
      each=((CO, 'sym'), (FU, 'sym')),
      twice=((CO, 'sym'), (FU, 'sym'), (CO, 'sym')),
      reset=((CO, 'sym'), (FU, 'sym'), (CO, 'default')),
      resetf=((CO, 'sym'), (FU, 'sym'), (FU, 'default'), (NO, 'schmidt')),
      bad=((CO, 'sym'), (NO, '4pi'), (NO, 'bad'), (FU, 'sym')),
      norm=((NO, 'orthonormal'), (CO, 'sym'), (NO, 'default')),
  )
  for k, seq in seqs.items():
    out.append((f'setters-{k}', setters(seq)))
  return out
