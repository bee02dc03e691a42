From 71cefed37db6d987711c453f2797df6ab54f8447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:01 +0000
Subject: [PATCH 1/7] fix: mish no longer returns NaN for large negative inputs

exp(-x) overflowed in single precision for x < -44 (squared) and x < -88, which
made the gate inf/inf. Use only non-positive exponents.
---
 e3x/nn/activations.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/e3x/nn/activations.py b/e3x/nn/activations.py
index 4ff81e5..45b7427 100644
--- a/e3x/nn/activations.py
+++ b/e3x/nn/activations.py
@@ -551,9 +551,11 @@ def mish(
       x: Float[Array, '... 1 1 num_features']
   ) -> Float[Array, '... 1 1 num_features']:
     if fast:  # Faster, but requires extra memory.
-      y = jnp.exp(-x)
-      z = 2 * y + 1
-      return z / (z + 2 * y * y)
+      # Only negative exponents are used, otherwise exp overflows for x << 0.
+      neg = x < 0
+      y = jnp.exp(jnp.where(neg, x, -x))
+      z = jnp.where(neg, y * (y + 2), 2 * y + 1)
+      return z / (z + jnp.where(neg, 2.0, 2 * y * y))
     else:
       return jnp.tanh(jax.nn.softplus(x))
 
-- 
2.43.0


From 22b78a14803e2a6c98c3a5a5c740b824158af191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:00 +0000
Subject: [PATCH 2/7] fix: alignment_rotation for (nearly) antiparallel vectors

For exactly antiparallel inputs rounding often gave 1 + u.v > 0, so that the
identity was returned (about 40% of random vectors), and for vectors along
(1,1,1) the half-turn axis was parallel to u. For nearly antiparallel vectors
the division by 1 + u.v lost all accuracy. Align -u with v for obtuse angles and
prepend a half turn around an axis that is perpendicular to u.
---
 e3x/so3/rotations.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/e3x/so3/rotations.py b/e3x/so3/rotations.py
index 267bfd2..8bbfaf1 100755
--- a/e3x/so3/rotations.py
+++ b/e3x/so3/rotations.py
@@ -121,24 +121,29 @@ def alignment_rotation(
   u = ops.normalize(u, axis=-1)
   v = ops.normalize(v, axis=-1)
 
+  # For obtuse angles, -u is aligned with v and preceded by a half turn that maps
+  # u to -u (the formula below is singular when the vectors are antiparallel).
+  obtuse = jnp.sum(u * v, axis=-1, keepdims=True) < 0
+  w = jnp.where(obtuse, -u, u)
+
   # Create the skew-symmetric cross product matrix.
-  x = jnp.cross(u, v)  # Cross product vector.
+  x = jnp.cross(w, v)  # Cross product vector.
   zeros = jnp.zeros_like(x[..., 0:1])
   col1 = jnp.concatenate((zeros, -x[..., 2:3], x[..., 1:2]), axis=-1)
   col2 = jnp.concatenate((x[..., 2:3], zeros, -x[..., 0:1]), axis=-1)
   col3 = jnp.concatenate((-x[..., 1:2], x[..., 0:1], zeros), axis=-1)
   skew = jnp.stack((col1, col2, col3), axis=-1)
 
-  # Calculate rotation matrix (does not handle antiparallel case correctly).
-  div = 1 + jnp.sum(u * v, axis=-1)
-  mask = div > 0
-  safe_div = jnp.where(mask, div, 1)
-  rot = skew + skew @ skew * (1 / safe_div)[..., None, None] + jnp.eye(3)
+  # Calculate rotation matrix that aligns w with v.
+  div = 1 + jnp.sum(w * v, axis=-1)
+  rot = skew + skew @ skew * (1 / div)[..., None, None] + jnp.eye(3)
 
-  # Handle antiparallel case.
-  w = ops.normalize(u + jnp.roll(u, shift=1, axis=-1))
-  axis = jnp.cross(u, w)
-  rot = jnp.where(mask[..., None, None], rot, rotation(axis, jnp.pi))
+  # Half turn around the axis perpendicular to u and v (shortest arc). If u and v
+  # are (almost) antiparallel, use any axis perpendicular to u instead.
+  e = jax.nn.one_hot(jnp.argmin(jnp.abs(u), axis=-1), 3, dtype=u.dtype)
+  is_plane = ops.norm(x, axis=-1, keepdims=True) > 1e-3
+  axis = jnp.where(is_plane, x, jnp.cross(u, e))
+  rot = jnp.where(obtuse[..., None], rotation(axis, jnp.pi) @ rot, rot)
 
   return rot
 
-- 
2.43.0


From e7a6e973c898ed78126c578d6071d27bed40ad92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:07 +0000
Subject: [PATCH 3/7] fix: shifted_softplus gate is accurate for small inputs

The difference of logarithms divided by x suffered from catastrophic
cancellation for |x| slightly above machine epsilon (gate 0.298 instead of 0.5
at x=2e-7 in single precision).
---
 e3x/nn/activations.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/e3x/nn/activations.py b/e3x/nn/activations.py
index 45b7427..70ef5ba 100644
--- a/e3x/nn/activations.py
+++ b/e3x/nn/activations.py
@@ -654,12 +654,16 @@ def shifted_softplus(
   def g(
       x: Float[Array, '... 1 1 num_features']
   ) -> Float[Array, '... 1 1 num_features']:
-    not_tiny = jnp.abs(x) > jnp.finfo(x.dtype).eps
+    # The closed form suffers from cancellation if x is small, so the threshold
+    # must be large enough for the difference of logarithms to be accurate.
+    not_tiny = jnp.abs(x) > jnp.finfo(x.dtype).eps ** (1 / 4)
     safe_x = jnp.where(not_tiny, x, 1)  # division safe x
+    tiny_x = jnp.where(not_tiny, 0, x)  # overflow safe x
     return jnp.where(
         not_tiny,
         (jnp.logaddexp(x, 0) - math.log(2)) / safe_x,
-        x / 8 + 1 / 2,  # + O(x^3) Taylor series around x=0
+        # Taylor series around x=0 (+ O(x^5)).
+        tiny_x / 8 * (1 - tiny_x * tiny_x / 24) + 1 / 2,
     )
 
   return _gated_linear(g, x)
-- 
2.43.0


From 507d2f4d2362f40cc878ea75acb812aba84f6c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:54 +0000
Subject: [PATCH 4/7] fix: indexed_softmax NaNs for destinations without
 contributing entries

Padding entries of empty destinations had infinite exponentials, so derivatives
of functions of the (masked) result were NaN. If the multiplicative mask was
zero for all entries of a destination, the values themselves were NaN.
---
 e3x/ops/indexed.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/e3x/ops/indexed.py b/e3x/ops/indexed.py
index 1611aa6..24767d7 100644
--- a/e3x/ops/indexed.py
+++ b/e3x/ops/indexed.py
@@ -800,7 +800,10 @@ def indexed_softmax(
       num_segments=num_segments,
       indices_are_sorted=indices_are_sorted,
   )
-  numerator = jnp.exp(inputs - lax.stop_gradient(maximum))
+  shifted = inputs - lax.stop_gradient(maximum)
+  # Valid entries never exceed the maximum. Padding entries can (their
+  # destination might be empty), which would lead to NaNs in the derivatives.
+  numerator = jnp.exp(jnp.where(shifted > 0, 0, shifted))
   if multiplicative_mask is not None:
     numerator *= multiplicative_mask
   denominator = indexed_sum(
@@ -812,4 +815,6 @@ def indexed_softmax(
       num_segments=num_segments,
       indices_are_sorted=indices_are_sorted,
   )
-  return numerator / denominator
+  # The denominator is zero if no entry contributes to the destination, e.g. if
+  # the multiplicative mask is zero for all of them.
+  return numerator / jnp.where(denominator > 0, denominator, 1)
-- 
2.43.0


From 64ae29d1bafc79c615d5a7edd55e6d5cac4996d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:19 +0000
Subject: [PATCH 5/7] fix: basis derivatives are not NaN for very short vectors

---
 e3x/nn/wrappers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/e3x/nn/wrappers.py b/e3x/nn/wrappers.py
index af7c204..7fd92a9 100644
--- a/e3x/nn/wrappers.py
+++ b/e3x/nn/wrappers.py
@@ -179,8 +179,7 @@ def basis(
     raise ValueError('return_cutoff is True, but no cutoff_fn was specified')
 
   # Normalize input vectors.
-  norm = ops.norm(r, axis=-1, keepdims=True)  # (..., 1)
-  u = r / jnp.where(norm > 0, norm, 1)
+  u, norm = ops.normalize_and_return_norm(r, axis=-1, keepdims=True)
   norm = norm.squeeze(-1)  # (...)
 
   # Evaluate radial basis functions.
-- 
2.43.0


From abb55ff3176364d918d178dcdfdd9f0cc2696d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:40 +0000
Subject: [PATCH 6/7] fix: gradient of norm does not overflow for very short
 vectors

---
 e3x/ops/safe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e3x/ops/safe.py b/e3x/ops/safe.py
index 61ab0f7..bbd7f4a 100644
--- a/e3x/ops/safe.py
+++ b/e3x/ops/safe.py
@@ -77,7 +77,7 @@ def _norm_jvp_impl(
   if not keepdims and axis is not None:
     masked_primal_out = jnp.expand_dims(masked_primal_out, axis=axis)
   tangent_out = jnp.sum(
-      x_dot * x / masked_primal_out,
+      x_dot * (x / masked_primal_out),
       axis=axis,
       keepdims=keepdims,
   )
-- 
2.43.0


From 33d6682707e3687ceb08d9c2ee9c46cbcd3bb179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:14 +0000
Subject: [PATCH 7/7] fix: configured defaults take effect in later calls

The defaults for cartesian_order, normalization and use_fused_tensor were
bound when e3x was imported, so that the setters of e3x.Config had no effect.
---
 e3x/nn/modules.py    | 24 +++++++++++++++++------
 e3x/nn/wrappers.py   |  6 +++++-
 e3x/so3/irreps.py    | 45 +++++++++++++++++++++++++++++++++++---------
 e3x/so3/rotations.py |  8 ++++++--
 4 files changed, 65 insertions(+), 18 deletions(-)

diff --git a/e3x/nn/modules.py b/e3x/nn/modules.py
index 937a089..9e01938 100644
--- a/e3x/nn/modules.py
+++ b/e3x/nn/modules.py
@@ -409,7 +409,9 @@ class Tensor(nn.Module):
 
   max_degree: Optional[int] = None
   include_pseudotensors: bool = True
-  cartesian_order: bool = Config.cartesian_order
+  cartesian_order: bool = dataclasses.field(
+      default_factory=lambda: Config.cartesian_order
+  )
   dtype: Optional[Dtype] = None
   param_dtype: Dtype = jnp.float32
   precision: PrecisionLike = None
@@ -740,7 +742,9 @@ class FusedTensor(nn.Module):
 
   max_degree: Optional[int] = None
   include_pseudotensors: bool = True
-  cartesian_order: bool = Config.cartesian_order
+  cartesian_order: bool = dataclasses.field(
+      default_factory=lambda: Config.cartesian_order
+  )
   dtype: Optional[Dtype] = None
   param_dtype: Dtype = jnp.float32
   precision: PrecisionLike = None
@@ -1142,8 +1146,12 @@ class TensorDense(nn.Module):
   max_degree: Optional[int] = None
   use_bias: bool = True
   include_pseudotensors: bool = True
-  cartesian_order: bool = Config.cartesian_order
-  use_fused_tensor: bool = Config.use_fused_tensor
+  cartesian_order: bool = dataclasses.field(
+      default_factory=lambda: Config.cartesian_order
+  )
+  use_fused_tensor: bool = dataclasses.field(
+      default_factory=lambda: Config.use_fused_tensor
+  )
   dtype: Optional[Dtype] = None
   param_dtype: Dtype = jnp.float32
   precision: PrecisionLike = None
@@ -1239,8 +1247,12 @@ class _Conv(nn.Module):
   max_degree: Optional[int] = None
   use_basis_bias: bool = False
   include_pseudotensors: bool = True
-  cartesian_order: bool = Config.cartesian_order
-  use_fused_tensor: bool = Config.use_fused_tensor
+  cartesian_order: bool = dataclasses.field(
+      default_factory=lambda: Config.cartesian_order
+  )
+  use_fused_tensor: bool = dataclasses.field(
+      default_factory=lambda: Config.use_fused_tensor
+  )
   dtype: Optional[Dtype] = None
   param_dtype: Dtype = jnp.float32
   precision: PrecisionLike = None
diff --git a/e3x/nn/wrappers.py b/e3x/nn/wrappers.py
index 7fd92a9..8f02b08 100644
--- a/e3x/nn/wrappers.py
+++ b/e3x/nn/wrappers.py
@@ -58,7 +58,7 @@ def basis(
     damping_fn: Optional[
         Callable[[Float[Array, '...']], Float[Array, '...']]
     ] = None,
-    cartesian_order: bool = config.Config.cartesian_order,
+    cartesian_order: Optional[bool] = None,
 ) -> Union[
     Float[Array, '... 1 (max_degree+1)**2 num'],
     Tuple[Float[Array, '... 1 (max_degree+1)**2 num'], Float[Array, '...']],
@@ -170,6 +170,10 @@ def basis(
     (a tuple of basis function values and cutoff values and/or norms is
     returned).
   """
+  # Options that are not specified take their configured default values.
+  if cartesian_order is None:
+    cartesian_order = config.Config.cartesian_order
+
   # Check that r is a collection of 3-vectors.
   if r.shape[-1] != 3:
     raise ValueError(f'r must have shape (..., 3), received shape {r.shape}')
diff --git a/e3x/so3/irreps.py b/e3x/so3/irreps.py
index a7079b7..f278277 100755
--- a/e3x/so3/irreps.py
+++ b/e3x/so3/irreps.py
@@ -15,6 +15,7 @@
 r"""Functions related to irreducible representations of rotations."""
 
 import itertools
+from typing import Optional
 from e3x import ops
 from e3x.config import Config
 import jax
@@ -42,8 +43,8 @@ def spherical_harmonics(
     r: Float[Array, '... 3'],
     max_degree: int,
     r_is_normalized: bool = False,
-    cartesian_order: bool = Config.cartesian_order,
-    normalization: Normalization = Config.normalization,
+    cartesian_order: Optional[bool] = None,
+    normalization: Optional[Normalization] = None,
 ) -> Float[Array, '... (max_degree+1)**2']:
   r"""Real Cartesian spherical harmonics :math:`Y_\ell^m(\vec{r})`.
 
@@ -132,6 +133,12 @@ def spherical_harmonics(
     ValueError: If ``r`` has an invalid shape (not a 3-vector), ``max_degree``
     is not positive or zero, or ``normalization`` has an invalid value.
   """
+  # Options that are not specified take their configured default values.
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
+  if normalization is None:
+    normalization = Config.normalization
+
   # Perform checks.
   if r.shape[-1] != 3:
     raise ValueError(f'r must have shape (..., 3), received shape {r.shape}')
@@ -173,7 +180,7 @@ def spherical_harmonics(
 def solid_harmonics(
     r: Float[Array, '... 3'],
     max_degree: int,
-    cartesian_order: bool = Config.cartesian_order,
+    cartesian_order: Optional[bool] = None,
 ) -> Float[Array, '... (max_degree+1)**2']:
   r"""Real Cartesian (regular) solid harmonics :math:`R_\ell^m(\vec{r})`.
 
@@ -221,7 +228,7 @@ def clebsch_gordan(
     max_degree1: int,
     max_degree2: int,
     max_degree3: int,
-    cartesian_order: bool = Config.cartesian_order,
+    cartesian_order: Optional[bool] = None,
 ) -> Float[Array, '(max_degree1+1)**2 (max_degree2+1)**2 (max_degree3+1)**2']:
   r"""Clebsch-Gordan coefficients for coupling all degrees at once.
 
@@ -243,6 +250,10 @@ def clebsch_gordan(
     ValueError: If ``max_degree1``, ``max_degree2``, or ``max_degree3`` are not
       positive or zero.
   """
+  # Options that are not specified take their configured default values.
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
+
   # Perform checks.
   _check_degree_is_positive_or_zero(max_degree1)
   _check_degree_is_positive_or_zero(max_degree2)
@@ -274,7 +285,7 @@ def clebsch_gordan_for_degrees(
     degree1: int,
     degree2: int,
     degree3: int,
-    cartesian_order: bool = Config.cartesian_order,
+    cartesian_order: Optional[bool] = None,
 ) -> Float[Array, '2*degree1+1 2*degree2+1 2*degree3+1']:
   r"""Clebsch-Gordan coefficients for coupling only specific degrees.
 
@@ -295,6 +306,10 @@ def clebsch_gordan_for_degrees(
     ValueError: If ``degree1``, ``degree2``, or ``degree3`` are not positive or
       zero.
   """
+  # Options that are not specified take their configured default values.
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
+
   # Perform checks.
   _check_degree_is_positive_or_zero(degree1)
   _check_degree_is_positive_or_zero(degree2)
@@ -423,8 +438,8 @@ def _tensor_compression_indices(
 def tensor_to_irreps(
     x: Float[Array, '...'],  # Last degree dimensions must all have size 3.
     degree: int,
-    cartesian_order: bool = Config.cartesian_order,
-    normalization: Normalization = Config.normalization,
+    cartesian_order: Optional[bool] = None,
+    normalization: Optional[Normalization] = None,
 ):
   """Converts a traceless symmetric tensor to irreducible representations.
 
@@ -449,6 +464,12 @@ def tensor_to_irreps(
     ValueError: If ``degree`` is not positive or zero, the shape of ``x`` is
     inconsistent with ``degree`` or ``normalization`` has an invalid value.
   """
+  # Options that are not specified take their configured default values.
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
+  if normalization is None:
+    normalization = Config.normalization
+
   # Perform checks.
   _check_degree_is_positive_or_zero(degree)
   _check_tensor_shape(x, degree)
@@ -509,8 +530,8 @@ def _tensor_expansion_indices(degree) -> Integer[Array, '...']:
 def irreps_to_tensor(
     x: Float[Array, '... 2*degree+1'],
     degree: int,
-    cartesian_order: bool = Config.cartesian_order,
-    normalization: Normalization = Config.normalization,
+    cartesian_order: Optional[bool] = None,
+    normalization: Optional[Normalization] = None,
 ):
   """Converts irreducible representations to a traceless symmetric tensor.
 
@@ -529,6 +550,12 @@ def irreps_to_tensor(
     ValueError: If ``degree`` is not positive or zero, the shape of ``x`` is
       inconsistent with ``degree`` or ``normalization`` has an invalid value.
   """
+  # Options that are not specified take their configured default values.
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
+  if normalization is None:
+    normalization = Config.normalization
+
   # Perform checks.
   _check_degree_is_positive_or_zero(degree)
   if x.shape[-1] != 2 * degree + 1:
diff --git a/e3x/so3/rotations.py b/e3x/so3/rotations.py
index 8bbfaf1..378264c 100755
--- a/e3x/so3/rotations.py
+++ b/e3x/so3/rotations.py
@@ -15,7 +15,7 @@
 """Functions for generating rotation matrices."""
 
 import functools
-from typing import Tuple, Union
+from typing import Optional, Tuple, Union
 from e3x import ops
 from e3x.config import Config
 import jax
@@ -378,7 +378,7 @@ def _wigner_d_euler(
 def wigner_d(
     rot: Float[Array, '... 3 3'],
     max_degree: int,
-    cartesian_order: bool = Config.cartesian_order,
+    cartesian_order: Optional[bool] = None,
 ) -> Float[Array, '... (max_degree+1)**2 (max_degree+1)**2']:
   r"""Wigner-D matrix corresponding to a given :math:`3\times3` rotation matrix.
 
@@ -414,6 +414,10 @@ def wigner_d(
   Raises:
     ValueError: If ``rot`` does not have shape `(..., 3, 3)`.
   """
+  # Options that are not specified take their configured default values.
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
+
   _check_rotation_matrix_shape(rot)  # Raise if shape is not (..., 3, 3).
 
   with jax.ensure_compile_time_eval():
-- 
2.43.0

