"""C11: rotating, reflecting, resizing and adding features."""
import itertools
import jax
import jax.numpy as jnp
import numpy as np
import e3x
from sx import harness as H
from sx import oracle as O

INFO = dict(
    functions=['e3x.nn.rotate', 'e3x.nn.reflect', 'e3x.nn.change_max_degree_or_type', 'e3x.nn.add', 'e3x.nn.even_degree_mask', 'e3x.nn.odd_degree_mask'],
    bounds='all feature values; all rotations about x, y and z (symbolic); max_degree 0..3 (quick) / 0..4 (thorough), all target degrees and types, with and without pseudotensors, 0..2 batch dimensions of size 2, 2 feature channels; sums of 1..3 operands of different formats',
    outside='larger degrees and batches; integer dtypes; operands of different dtypes (rejected)',
    explanation='Every output component is compared with the component prescribed by the irrep algebra, as linear (bilinear with the rotation) identities in symbolic features.',
    assumptions=[])


def parity(l, p, P):
  """parity of degree l stored in channel p of P."""
  if P == 1:
    return 0 if l % 2 == 0 else 1
  return p


def comp_ref(x, l, par):
  """(..., 2l+1, F) component of degree l and parity par (0 even, 1 odd), zeros if absent."""
  P = x.shape[-3]
  L = int(round(np.sqrt(x.shape[-2]))) - 1
  z = jnp.zeros((*x.shape[:-3], 2 * l + 1, x.shape[-1]), x.dtype)
  if l > L:
    return z
  if P == 2:
    return x[..., par, l * l:(l + 1) ** 2, :]
  return x[..., 0, l * l:(l + 1) ** 2, :] if l % 2 == par else z


def comps_eq(tag, y, ref, L, P):
  """claims: y (L, P) has components ref(l, par)."""
  out = []
  for l in range(L + 1):
    for p in range(P):
      par = parity(l, p, P)
      out.append(H.eq(f'{tag} l={l} parity={par}', y[..., p, l * l:(l + 1) ** 2, :], ref(l, par)))
  return out


def _rot(L, P, batch, axis, cart):
  def build():
    def prog(x, t):
      D = O.dmat(t, L, axis, cart)
      y = e3x.nn.rotate(x, D)
      H.static('shape', y.shape == x.shape, str(y.shape))
      ref = jnp.stack([jnp.einsum('...lf,lm->...mf', x[..., p, :, :], D) for p in range(P)], axis=-3)
      out = [H.eq('rotate', y, ref)]
      e = jnp.einsum('...lf,...lf->...f', x, x) - jnp.einsum('...lf,...lf->...f', y, y)
      out.append(H.eq('norm', e, jnp.zeros_like(e)))
      out.append(H.eq('reflect commutes', e3x.nn.reflect(y), e3x.nn.rotate(e3x.nn.reflect(x), D)))
      return out
    return H.Case('', dict(x=H.Real((*batch, P, (L + 1) ** 2, 2)), t=H.Angle()), prog)
  return build


def _rot_batched(L, P, batch):
  def build():
    n = int(np.prod(batch))

    def prog(x, t, s):
      Ds = [O.dmat(t, L, 'z', False), O.dmat(s, L, 'x', False), O.dmat(s, L, 'y', False), O.dmat(t, L, 'x', False)]
      D = jnp.stack(Ds[:n]).reshape(*batch, (L + 1) ** 2, (L + 1) ** 2)
      y = e3x.nn.rotate(x, D)
      out = []
      for k, b in enumerate(itertools.product(*map(range, batch))):
        out.append(H.eq(f'rotate{b}', y[b], jnp.einsum('plf,lm->pmf', x[b], Ds[k])))
      return out
    return H.Case('', dict(x=H.Real((*batch, P, (L + 1) ** 2, 2)), t=H.Angle(), s=H.Angle()), prog)
  return build


def _rot_any(L, P):
  """rotate is the matrix product for arbitrary matrices."""
  def build():
    n = (L + 1) ** 2

    def prog(x, D):
      return [H.eq('rotate', e3x.nn.rotate(x, D), jnp.einsum('bplf,lm->bpmf', x, D))]
    return H.Case('', dict(x=H.Real((2, P, n, 2)), D=H.Real((n, n))), prog)
  return build


def _reflect(L, P, batch):
  def build():
    def prog(x):
      y = e3x.nn.reflect(x)
      H.static('shape', y.shape == x.shape and y.dtype == x.dtype, f'{y.shape} {y.dtype}')
      return comps_eq('reflect', y, lambda l, par: (-1.0) ** par * comp_ref(x, l, par), L, P) + [H.eq('involution', e3x.nn.reflect(y), x)]
    return H.Case('', dict(x=H.Real((*batch, P, (L + 1) ** 2, 2))), prog)
  return build


def _change(L, P, L2, P2, batch, explicit=True):
  def build():
    def prog(x):
      kw = {}
      if explicit or L2 != L:
        kw['max_degree'] = L2
      if explicit or P2 != P:
        kw['include_pseudotensors'] = P2 == 2
      y = e3x.nn.change_max_degree_or_type(x, **kw)
      H.static('shape', y.shape == (*batch, P2, (L2 + 1) ** 2, 2) and y.dtype == x.dtype, f'{y.shape} {y.dtype}')
      out = comps_eq('change', y, lambda l, par: comp_ref(x, l, par), L2, P2)
      out.append(H.eq('reflect commutes', e3x.nn.reflect(y), e3x.nn.change_max_degree_or_type(e3x.nn.reflect(x), **kw)))
      return out
    return H.Case('', dict(x=H.Real((*batch, P, (L + 1) ** 2, 2))), prog)
  return build


def _change_rot(L, P, L2, P2):
  def build():
    def prog(x, t):
      f = lambda v: e3x.nn.change_max_degree_or_type(v, max_degree=L2, include_pseudotensors=P2 == 2)
      return [H.eq('rotation commutes', f(e3x.nn.rotate(x, O.dmat(t, L, 'x', False))), e3x.nn.rotate(f(x), O.dmat(t, L2, 'x', False)))]
    return H.Case('', dict(x=H.Real((P, (L + 1) ** 2, 1)), t=H.Angle()), prog)
  return build


def _add(fmts, batch):
  def build():
    def prog(**k):
      xs = [k[f'x{i}'] for i in range(len(fmts))]
      y = e3x.nn.add(*xs)
      L, P = max(f[0] for f in fmts), max(f[1] for f in fmts)
      H.static('shape', y.shape == (*batch, P, (L + 1) ** 2, 2) and y.dtype == xs[0].dtype, f'{y.shape} {y.dtype}')
      return comps_eq('add', y, lambda l, par: sum(comp_ref(x, l, par) for x in xs), L, P)
    return H.Case('', {f'x{i}': H.Real((*batch, P, (L + 1) ** 2, 2)) for i, (L, P) in enumerate(fmts)}, prog)
  return build


def _masks(L):
  def build():
    def prog(x):
      e, o = e3x.nn.features.even_degree_mask(L), e3x.nn.features.odd_degree_mask(L)
      n = (L + 1) ** 2
      H.static('shape', e.shape == (n, 1) and o.shape == (n, 1) and e.dtype == bool and o.dtype == bool, f'{e.shape} {o.shape}')
      deg = np.repeat(np.arange(L + 1), 2 * np.arange(L + 1) + 1)[:, None]
      return [H.eq('even', jnp.where(e, x, 0.0), x * (deg % 2 == 0)), H.eq('odd', jnp.where(o, x, 0.0), x * (deg % 2 == 1))]
    return H.Case('', dict(x=H.Real(((L + 1) ** 2, 2))), prog)
  return build


def cases(tier):
  out = []
  M = 3 if tier == 'quick' else 4
  for L in range(M + 1):
    for P in (1, 2):
      for ax in 'xyz':
        out.append((f'rotate-{L}-{P}-{ax}', _rot(L, P, () if ax != 'y' else (2,), ax, ax == 'y')))
      out.append((f'reflect-{L}-{P}', _reflect(L, P, ())))
      out.append((f'reflect-{L}-{P}-b', _reflect(L, P, (2, 2))))
      for L2 in range(M + 1):
        for P2 in (1, 2):
          out.append((f'change-{L}-{P}-{L2}-{P2}', _change(L, P, L2, P2, (2,) if L2 % 2 else ())))
          if L == L2 or P == P2:
            out.append((f'change-{L}-{P}-{L2}-{P2}-default', _change(L, P, L2, P2, (1, 2), explicit=False)))
    out.append((f'masks-{L}', _masks(L)))
  for P in (1, 2):
    out.append((f'rotate-batched-{P}', _rot_batched(2, P, (2,))))
    out.append((f'rotate-batched2-{P}', _rot_batched(1, P, (2, 2))))
    out.append((f'rotate-any-{P}', _rot_any(2, P)))
    for P2 in (1, 2):
      for L, L2 in ((1, 2), (2, 1), (2, 2), (0, 2)):
        out.append((f'change-rot-{L}-{P}-{L2}-{P2}', _change_rot(L, P, L2, P2)))
  fm = [(0, 1), (1, 1), (2, 1), (0, 2), (1, 2), (2, 2), (3, 1)]
  for f in fm:
    out.append((f'add-{f}'.replace(' ', ''), _add([f], ())))
    for g in fm:
      out.append((f'add-{f}-{g}'.replace(' ', ''), _add([f, g], (2,) if f[0] == 1 else ())))
  for t in ([(0, 1), (2, 1), (1, 2)], [(1, 2), (1, 1), (0, 1)], [(2, 2), (0, 1), (3, 1)], [(1, 1), (0, 2), (2, 1)]):
    out.append((f'add3-{t}'.replace(' ', ''), _add(t, (2, 2))))
  return out
