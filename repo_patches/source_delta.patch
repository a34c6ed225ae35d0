From f0c83be327ca0a4d415ec95b3609d053f4f8f113 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 01/42] fix: spherical polar angle at the origin is not NaN

---
 src/coordinax/_src/vectors/d3/transform.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/d3/transform.py b/src/coordinax/_src/vectors/d3/transform.py
index a34d35e..8ef789d 100644
--- a/src/coordinax/_src/vectors/d3/transform.py
+++ b/src/coordinax/_src/vectors/d3/transform.py
@@ -221,7 +221,8 @@ def represent_as(
 
     """
     r = xp.sqrt(current.x**2 + current.y**2 + current.z**2)
-    theta = xp.acos(current.z / r)
+    # `atan2` is well-defined at the origin, unlike `acos(z / r)`.
+    theta = xp.atan2(xp.sqrt(current.x**2 + current.y**2), current.z)
     phi = xp.atan2(current.y, current.x)
     return target(r=r, theta=theta, phi=phi)
 
@@ -305,7 +306,8 @@ def represent_as(
 
     """
     r = xp.sqrt(current.rho**2 + current.z**2)
-    theta = xp.acos(current.z / r)
+    # `atan2` is well-defined at the origin, unlike `acos(z / r)`.
+    theta = xp.atan2(current.rho, current.z)
     return target(r=r, theta=theta, phi=current.phi)
 
 
-- 
2.43.0


From 5f81b9d850942555c89ab4b1fe1670734485e826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 02/42] fix: lenient longitude-latitude construction accepts
 any latitude

---
 src/coordinax/_src/vectors/d3/lonlatspherical.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/d3/lonlatspherical.py b/src/coordinax/_src/vectors/d3/lonlatspherical.py
index feb7a9f..b17b664 100644
--- a/src/coordinax/_src/vectors/d3/lonlatspherical.py
+++ b/src/coordinax/_src/vectors/d3/lonlatspherical.py
@@ -25,6 +25,7 @@ from .base_spherical import (
     AbstractSphericalVel,
     _90d,
     _180d,
+    _360d,
 )
 from coordinax._src.angles import Angle, BatchableAngle
 from coordinax._src.distances import AbstractDistance, BatchableDistance, Distance
@@ -229,7 +230,8 @@ def from_(
     lat = qlax.select(distance_pred, -lat, lat)
 
     # 3) Handle latitude outside of [-90, 90] degrees
-    # TODO: fix when lat < -180, lat > 180
+    lat_wrapped = jnp.mod(lat + _180d, _360d) - _180d  # wrap to [-180, 180) deg
+    lat = qlax.select(jnp.abs(lat) > _180d, lat_wrapped, lat)
     lat_pred = lat < -_90d
     lat = qlax.select(lat_pred, -_180d - lat, lat)
     lon = qlax.select(lat_pred, lon + _180d, lon)
-- 
2.43.0


From 4baaaaa1908705117fb9ad484b524d0970f6cd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:56 +0000
Subject: [PATCH 03/42] fix: projecting spherical positions at the pole to
 polar does not raise

---
 src/coordinax/_src/vectors/transform/d3.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/transform/d3.py b/src/coordinax/_src/vectors/transform/d3.py
index c3f1cb8..aec3e2a 100644
--- a/src/coordinax/_src/vectors/transform/d3.py
+++ b/src/coordinax/_src/vectors/transform/d3.py
@@ -382,7 +382,9 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    return target(r=current.r * jnp.sin(current.theta), phi=current.phi)
+    # `sin` can round to a negative number at the pole
+    r = jnp.abs(current.r * jnp.sin(current.theta))
+    return target(r=r, phi=current.phi)
 
 
 # =============================================================================
@@ -506,7 +508,9 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    return target(r=current.r * jnp.sin(current.phi), phi=current.theta)
+    # `sin` can round to a negative number at the pole
+    r = jnp.abs(current.r * jnp.sin(current.phi))
+    return target(r=r, phi=current.theta)
 
 
 # =============================================================================
-- 
2.43.0


From d3cd1dfe773da2e4cd54f5c9c20fbef6a4e7e557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 04/42] fix: lenient spherical construction broadcasts its
 inputs

---
 src/coordinax/_src/vectors/d3/lonlatspherical.py | 1 +
 src/coordinax/_src/vectors/d3/mathspherical.py   | 1 +
 src/coordinax/_src/vectors/d3/spherical.py       | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/coordinax/_src/vectors/d3/lonlatspherical.py b/src/coordinax/_src/vectors/d3/lonlatspherical.py
index b17b664..c67ac9d 100644
--- a/src/coordinax/_src/vectors/d3/lonlatspherical.py
+++ b/src/coordinax/_src/vectors/d3/lonlatspherical.py
@@ -222,6 +222,7 @@ def from_(
     lon = fields["lon"].metadata["converter"](lon)
     lat = fields["lat"].metadata["converter"](lat)
     distance = fields["distance"].metadata["converter"](distance)
+    lon, lat, distance = jnp.broadcast_arrays(lon, lat, distance)
 
     # 2) handle negative distances
     distance_pred = distance < jnp.zeros_like(distance)
diff --git a/src/coordinax/_src/vectors/d3/mathspherical.py b/src/coordinax/_src/vectors/d3/mathspherical.py
index 63a1195..424277e 100644
--- a/src/coordinax/_src/vectors/d3/mathspherical.py
+++ b/src/coordinax/_src/vectors/d3/mathspherical.py
@@ -166,6 +166,7 @@ def from_(
     r = fields["r"].metadata["converter"](r)
     theta = fields["theta"].metadata["converter"](theta)
     phi = fields["phi"].metadata["converter"](phi)
+    r, theta, phi = jnp.broadcast_arrays(r, theta, phi)
 
     # 2) handle negative distances
     r_pred = r < jnp.zeros_like(r)
diff --git a/src/coordinax/_src/vectors/d3/spherical.py b/src/coordinax/_src/vectors/d3/spherical.py
index f7dc3db..63ea652 100644
--- a/src/coordinax/_src/vectors/d3/spherical.py
+++ b/src/coordinax/_src/vectors/d3/spherical.py
@@ -144,6 +144,7 @@ def from_(
     r = fields["r"].metadata["converter"](r)
     theta = fields["theta"].metadata["converter"](theta)
     phi = fields["phi"].metadata["converter"](phi)
+    r, theta, phi = jnp.broadcast_arrays(r, theta, phi)
 
     # 2) handle negative distances
     r_pred = r < jnp.zeros_like(r)
-- 
2.43.0


From 1a5f062ac84961247a4ca0bb102a78c275d66e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 05/42] fix: convert velocities from prolate spheroidal
 coordinates

---
 src/coordinax/_src/vectors/transform/velocities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/transform/velocities.py b/src/coordinax/_src/vectors/transform/velocities.py
index 6310fc1..b7d79dc 100644
--- a/src/coordinax/_src/vectors/transform/velocities.py
+++ b/src/coordinax/_src/vectors/transform/velocities.py
@@ -131,7 +131,9 @@ def represent_as(
     # original type, with fields that are the columns of that row, but with only the
     # denomicator's units.
     tmp = partial(represent_as, **kwargs)
-    jac_rep_as = eqx.filter_jit(jax.vmap(jax.jacfwd(tmp), in_axes=(0, None)))
+    # The coordinates are batched, but the attributes (e.g. a focal length) are not.
+    in_axes = jax.tree.map(lambda x: 0 if jax.numpy.ndim(x) > 0 else None, current_pos)
+    jac_rep_as = eqx.filter_jit(jax.vmap(jax.jacfwd(tmp), in_axes=(in_axes, None)))
     jac_nested_vecs = jac_rep_as(current_pos, target.integral_cls)
 
     # This changes the Jacobian to be a dictionary of each row, with the value
-- 
2.43.0


From b045dd3e618ea0a0478abe9cc794899c54f7cec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 06/42] fix: convert accelerations to and from prolate
 spheroidal coordinates

---
 .../_src/vectors/transform/accelerations.py      | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/coordinax/_src/vectors/transform/accelerations.py b/src/coordinax/_src/vectors/transform/accelerations.py
index 32df3da..62ee9ae 100644
--- a/src/coordinax/_src/vectors/transform/accelerations.py
+++ b/src/coordinax/_src/vectors/transform/accelerations.py
@@ -3,6 +3,7 @@
 __all__: list[str] = []
 
 from dataclasses import replace
+from functools import partial
 from math import prod
 from typing import Any
 
@@ -16,6 +17,7 @@ from dataclassish import field_items
 
 from coordinax._src.distances import AbstractDistance
 from coordinax._src.vectors.base import AbstractAcc, AbstractPos, AbstractVel
+from coordinax._src.vectors.base.flags import AttrFilter
 from coordinax._src.vectors.d1 import AbstractAcc1D
 from coordinax._src.vectors.d2 import AbstractAcc2D
 from coordinax._src.vectors.d3 import AbstractAcc3D
@@ -148,7 +150,7 @@ def represent_as(
         current_pos,
         **{
             k: v.distance
-            for k, v in field_items(current_pos)
+            for k, v in field_items(AttrFilter, current_pos)
             if isinstance(v, AbstractDistance)
         },
     )
@@ -163,6 +165,10 @@ def represent_as(
     # the correct numerator unit (of the Jacobian row). The value is a Vector of the
     # original type, with fields that are the columns of that row, but with only the
     # denomicator's units.
+    # The coordinates are batched, but the attributes (e.g. a focal length) are not.
+    tmp = partial(represent_as, **kwargs)
+    in_axes = jax.tree.map(lambda x: 0 if jax.numpy.ndim(x) > 0 else None, current_pos)
+    jac_rep_as = eqx.filter_jit(jax.vmap(jax.jacfwd(tmp), in_axes=(in_axes, None)))
     jac_nested_vecs = jac_rep_as(current_pos, target.integral_cls.integral_cls)
 
     # This changes the Jacobian to be a dictionary of each row, with the value
@@ -171,9 +177,9 @@ def represent_as(
     jac_rows = {
         f"d2_{k}": {
             kk: u.Quantity(vv.value, unit=v.unit / vv.unit)
-            for kk, vv in field_items(v.value)
+            for kk, vv in field_items(AttrFilter, v.value)
         }
-        for k, v in field_items(jac_nested_vecs)
+        for k, v in field_items(AttrFilter, jac_nested_vecs)
     }
 
     # Now we can use the Jacobian to transform the differential.
@@ -197,7 +203,3 @@ def represent_as(
     #       This is necessary for the df/dt * vel term in the chain rule.
 
     return newvec  # noqa: RET504
-
-
-# TODO: situate this better to show how represent_as is used
-jac_rep_as = eqx.filter_jit(jax.vmap(jax.jacfwd(represent_as), in_axes=(0, None)))
-- 
2.43.0


From b9b81e8716d63de7aac8435beb270aa550b83f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:44 +0000
Subject: [PATCH 07/42] fix: prolate focal-length change accepts any length
 unit

---
 src/coordinax/_src/vectors/d3/transform.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/coordinax/_src/vectors/d3/transform.py b/src/coordinax/_src/vectors/d3/transform.py
index 8ef789d..a7ca509 100644
--- a/src/coordinax/_src/vectors/d3/transform.py
+++ b/src/coordinax/_src/vectors/d3/transform.py
@@ -6,7 +6,6 @@ __all__: list[str] = []
 from typing import Any
 
 import equinox as eqx
-import jax
 from plum import dispatch
 
 import quaxed.numpy as xp
@@ -766,14 +765,10 @@ def represent_as(
     Array(True, dtype=bool)
 
     """
-    Delta = kwargs.get("Delta", current.Delta)
-    return jax.lax.cond(
-        "Delta" in kwargs,
-        lambda Delta: represent_as(
-            represent_as(current, CylindricalPos), target, Delta=Delta
-        ),
-        lambda _: current,
-        Delta,
+    if "Delta" not in kwargs:
+        return current
+    return represent_as(
+        represent_as(current, CylindricalPos), target, Delta=kwargs["Delta"]
     )
 
 
-- 
2.43.0


From 87ecae060dd3cdcea6e480be50be40efc3b67d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:44 +0000
Subject: [PATCH 08/42] fix: lon-cos-lat velocity conversions accept quantities
 and keywords

---
 src/coordinax/_src/vectors/d3/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/coordinax/_src/vectors/d3/transform.py b/src/coordinax/_src/vectors/d3/transform.py
index a7ca509..199bd26 100644
--- a/src/coordinax/_src/vectors/d3/transform.py
+++ b/src/coordinax/_src/vectors/d3/transform.py
@@ -104,7 +104,7 @@ def represent_as(
     (
         LonCosLatSphericalVel,
         type[LonCosLatSphericalVel],
-        AbstractPos,
+        AbstractPos | u.Quantity["length"],
     ),
     (MathSphericalVel, type[MathSphericalVel], AbstractPos),
     (ProlateSpheroidalVel, type[ProlateSpheroidalVel], AbstractPos),
@@ -865,7 +865,7 @@ def represent_as(
         )
 
     # Transform the differential to LonLatSphericalVel
-    current = represent_as(current, LonLatSphericalVel, posvec)
+    current = represent_as(current, LonLatSphericalVel, posvec, **kwargs)
 
     # Transform the position to the required type
     posvec = represent_as(posvec, current.integral_cls)
@@ -925,7 +925,7 @@ def represent_as(
     # Transform the differential to LonLatSphericalVel
     current = represent_as(current, LonLatSphericalVel, posvec)
     # Transform the position to the required type
-    return represent_as(current, target, posvec)
+    return represent_as(current, target, posvec, **kwargs)
 
 
 # =============================================================================
-- 
2.43.0


From e8c191e78ed2a232d488c206b5d49bd592dac741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:17 +0000
Subject: [PATCH 09/42] fix: vector equality compares components as quantities

---
 src/coordinax/_src/vectors/base/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/coordinax/_src/vectors/base/base.py b/src/coordinax/_src/vectors/base/base.py
index f45070a..ff60886 100644
--- a/src/coordinax/_src/vectors/base/base.py
+++ b/src/coordinax/_src/vectors/base/base.py
@@ -10,12 +10,13 @@ __all__ = [
 from abc import abstractmethod
 from collections.abc import Callable, Mapping
 from enum import Enum
+from functools import reduce
 from types import MappingProxyType
 from typing import TYPE_CHECKING, Any, NoReturn, TypeVar
 
 import jax
 import numpy as np
-from jax import Device, tree
+from jax import Device
 from jaxtyping import Array, ArrayLike, Bool
 from plum import dispatch
 from quax import ArrayValue, register
@@ -613,9 +614,8 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
         if type(other) is not type(self):
             return NotImplemented
 
-        comp_tree = tree.map(jnp.equal, self, other)
-        comp_leaves = jnp.array(tree.leaves(comp_tree))
-        return jax.numpy.logical_and.reduce(comp_leaves)
+        comps = (jnp.equal(v, getattr(other, k)) for k, v in field_items(self))
+        return reduce(jnp.logical_and, comps)
 
     # ---------------------------------------------------------------
     # methods
-- 
2.43.0


From 768944bb3568964d9b52fa25f3e57f0a9cf06d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:17 +0000
Subject: [PATCH 10/42] fix: Cartesian vectors in different units add and
 subtract

---
 src/coordinax/_src/utils.py                |  9 ++++++++-
 src/coordinax/_src/vectors/d1/cartesian.py | 12 ++++++------
 src/coordinax/_src/vectors/d2/cartesian.py | 10 +++++-----
 src/coordinax/_src/vectors/d3/cartesian.py | 12 ++++++------
 4 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/coordinax/_src/utils.py b/src/coordinax/_src/utils.py
index 7cb38d8..cb236a4 100644
--- a/src/coordinax/_src/utils.py
+++ b/src/coordinax/_src/utils.py
@@ -4,9 +4,11 @@ __all__: list[str] = []
 
 from collections.abc import Callable
 from dataclasses import dataclass
-from typing import Annotated as Ann, Generic, TypeVar
+from typing import Annotated as Ann, Any, Generic, TypeVar
 from typing_extensions import Doc
 
+from unxt.quantity import AbstractQuantity
+
 GetterRetT = TypeVar("GetterRetT")
 EnclosingT = TypeVar("EnclosingT")
 
@@ -138,3 +140,8 @@ def classproperty(
     fget = func if isinstance(func, classmethod | staticmethod) else classmethod(func)
     # Return the wrapped function as a class-level property
     return ClassPropertyDescriptor[EnclosingT, GetterRetT](fget)
+
+
+def is_quantity(x: Any, /) -> bool:
+    """Whether the object is a quantity, e.g. to be a leaf of a `jax.tree.map`."""
+    return isinstance(x, AbstractQuantity)
diff --git a/src/coordinax/_src/vectors/d1/cartesian.py b/src/coordinax/_src/vectors/d1/cartesian.py
index 97b8bc3..149a5cb 100644
--- a/src/coordinax/_src/vectors/d1/cartesian.py
+++ b/src/coordinax/_src/vectors/d1/cartesian.py
@@ -19,7 +19,7 @@ from quaxed import lax as qlax
 import coordinax._src.typing as ct
 from .base import AbstractAcc1D, AbstractPos1D, AbstractVel1D
 from coordinax._src.distances import BatchableLength
-from coordinax._src.utils import classproperty
+from coordinax._src.utils import classproperty, is_quantity
 from coordinax._src.vectors.base import AbstractPos
 from coordinax._src.vectors.base.mixins import AvalMixin
 
@@ -89,7 +89,7 @@ def _add_qq(lhs: CartesianPos1D, rhs: AbstractPos, /) -> CartesianPos1D:
 
     """
     cart = rhs.represent_as(CartesianPos1D)
-    return jax.tree.map(qlax.add, lhs, cart)
+    return jax.tree.map(qlax.add, lhs, cart, is_leaf=is_quantity)
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -158,7 +158,7 @@ def _sub_q1d_pos(self: CartesianPos1D, other: AbstractPos, /) -> CartesianPos1D:
 
     """
     cart = other.represent_as(CartesianPos1D)
-    return jax.tree.map(qlax.sub, self, cart)
+    return jax.tree.map(qlax.sub, self, cart, is_leaf=is_quantity)
 
 
 #####################################################################
@@ -225,7 +225,7 @@ def _add_pp(lhs: CartesianVel1D, rhs: CartesianVel1D, /) -> CartesianVel1D:
     Quantity['speed'](Array(2, dtype=int32), unit='km / s')
 
     """
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return jax.tree.map(qlax.add, lhs, rhs, is_leaf=is_quantity)
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -316,7 +316,7 @@ def _add_aa(lhs: CartesianAcc1D, rhs: CartesianAcc1D, /) -> CartesianAcc1D:
     Quantity['acceleration'](Array(2, dtype=int32), unit='km / s2')
 
     """
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return jax.tree.map(qlax.add, lhs, rhs, is_leaf=is_quantity)
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -371,4 +371,4 @@ def _sub_a1_a1(self: CartesianAcc1D, other: CartesianAcc1D, /) -> CartesianAcc1D
     Quantity['acceleration'](Array(-1, dtype=int32, ...), unit='m / s2')
 
     """
-    return jax.tree.map(qlax.sub, self, other)
+    return jax.tree.map(qlax.sub, self, other, is_leaf=is_quantity)
diff --git a/src/coordinax/_src/vectors/d2/cartesian.py b/src/coordinax/_src/vectors/d2/cartesian.py
index 5b097ba..acc4a6e 100644
--- a/src/coordinax/_src/vectors/d2/cartesian.py
+++ b/src/coordinax/_src/vectors/d2/cartesian.py
@@ -24,7 +24,7 @@ from unxt.quantity import AbstractQuantity, Quantity
 import coordinax._src.typing as ct
 from .base import AbstractAcc2D, AbstractPos2D, AbstractVel2D
 from coordinax._src.distances import BatchableLength
-from coordinax._src.utils import classproperty
+from coordinax._src.utils import classproperty, is_quantity
 from coordinax._src.vectors.base import AbstractPos
 from coordinax._src.vectors.base.mixins import AvalMixin
 
@@ -98,7 +98,7 @@ def _add_cart2d_pos(lhs: CartesianPos2D, rhs: AbstractPos, /) -> CartesianPos2D:
 
     """
     cart = rhs.represent_as(CartesianPos2D)
-    return jax.tree.map(qlax.add, lhs, cart)
+    return jax.tree.map(qlax.add, lhs, cart, is_leaf=is_quantity)
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -155,7 +155,7 @@ def _sub_cart2d_pos2d(lhs: CartesianPos2D, rhs: AbstractPos, /) -> CartesianPos2
 
     """
     cart = rhs.represent_as(CartesianPos2D)
-    return jax.tree.map(qlax.sub, lhs, cart)
+    return jax.tree.map(qlax.sub, lhs, cart, is_leaf=is_quantity)
 
 
 #####################################################################
@@ -232,7 +232,7 @@ def _add_pp(lhs: CartesianVel2D, rhs: CartesianVel2D, /) -> CartesianVel2D:
     Quantity['speed'](Array(2., dtype=float32), unit='km / s')
 
     """
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return jax.tree.map(qlax.add, lhs, rhs, is_leaf=is_quantity)
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -345,7 +345,7 @@ def _add_aa(lhs: CartesianAcc2D, rhs: CartesianAcc2D, /) -> CartesianAcc2D:
     Quantity['acceleration'](Array(6., dtype=float32), unit='km / s2')
 
     """
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return jax.tree.map(qlax.add, lhs, rhs, is_leaf=is_quantity)
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
diff --git a/src/coordinax/_src/vectors/d3/cartesian.py b/src/coordinax/_src/vectors/d3/cartesian.py
index 1dffbdc..73a7729 100644
--- a/src/coordinax/_src/vectors/d3/cartesian.py
+++ b/src/coordinax/_src/vectors/d3/cartesian.py
@@ -27,7 +27,7 @@ import coordinax._src.typing as ct
 from .base import AbstractAcc3D, AbstractPos3D, AbstractVel3D
 from .generic import CartesianGeneric3D
 from coordinax._src.distances import BatchableLength
-from coordinax._src.utils import classproperty
+from coordinax._src.utils import classproperty, is_quantity
 from coordinax._src.vectors.base import AbstractPos
 from coordinax._src.vectors.base.mixins import AvalMixin
 
@@ -148,7 +148,7 @@ def _sub_cart3d_pos(lhs: CartesianPos3D, rhs: AbstractPos, /) -> CartesianPos3D:
 
     """
     cart = rhs.represent_as(CartesianPos3D)
-    return jax.tree.map(qlax.sub, lhs, cart)
+    return jax.tree.map(qlax.sub, lhs, cart, is_leaf=is_quantity)
 
 
 # =====================================================
@@ -286,7 +286,7 @@ def _add_pp(lhs: CartesianVel3D, rhs: CartesianVel3D, /) -> CartesianVel3D:
     Quantity['speed'](Array(4., dtype=float32), unit='km / s')
 
     """
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return jax.tree.map(qlax.add, lhs, rhs, is_leaf=is_quantity)
 
 
 @register(jax.lax.sub_p)  # type: ignore[misc]
@@ -302,7 +302,7 @@ def _sub_v3_v3(lhs: CartesianVel3D, other: CartesianVel3D, /) -> CartesianVel3D:
     Quantity['speed'](Array(0., dtype=float32), unit='km / s')
 
     """
-    return jax.tree.map(qlax.sub, lhs, other)
+    return jax.tree.map(qlax.sub, lhs, other, is_leaf=is_quantity)
 
 
 #####################################################################
@@ -386,7 +386,7 @@ def from_(
 @register(jax.lax.add_p)  # type: ignore[misc]
 def _add_aa(lhs: CartesianAcc3D, rhs: CartesianAcc3D, /) -> CartesianAcc3D:
     """Add two Cartesian accelerations."""
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return jax.tree.map(qlax.add, lhs, rhs, is_leaf=is_quantity)
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -415,4 +415,4 @@ def _mul_ac3(lhs: ArrayLike, rhs: CartesianPos3D, /) -> CartesianPos3D:
 @register(jax.lax.sub_p)  # type: ignore[misc]
 def _sub_a3_a3(lhs: CartesianAcc3D, rhs: CartesianAcc3D, /) -> CartesianAcc3D:
     """Subtract two accelerations."""
-    return jax.tree.map(qlax.sub, lhs, rhs)
+    return jax.tree.map(qlax.sub, lhs, rhs, is_leaf=is_quantity)
-- 
2.43.0


From e290c9a98c26ea49aef7065130a1bf0733486ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:17 +0000
Subject: [PATCH 11/42] fix: dividing a position by a scalar does not scale its
 angles

---
 src/coordinax/_src/vectors/base/base_pos.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/base/base_pos.py b/src/coordinax/_src/vectors/base/base_pos.py
index 4326807..f895b3f 100644
--- a/src/coordinax/_src/vectors/base/base_pos.py
+++ b/src/coordinax/_src/vectors/base/base_pos.py
@@ -214,9 +214,12 @@ def _div_pos_v(lhs: AbstractPos, rhs: ArrayLike) -> AbstractPos:
     Quantity['length'](Array(0.5, dtype=float32), unit='m')
 
     """
-    return replace(
-        lhs, **{k: jnp.divide(v, rhs) for k, v in field_items(AttrFilter, lhs)}
+    # Divide the Cartesian components: angles are not to be scaled.
+    cart = lhs.represent_as(lhs._cartesian_cls)  # noqa: SLF001
+    cart = replace(
+        cart, **{k: jnp.divide(v, rhs) for k, v in field_items(AttrFilter, cart)}
     )
+    return cart.represent_as(type(lhs))
 
 
 # ------------------------------------------------
-- 
2.43.0


From e3fc98a353ee4f548afda1a0ba59e8da752d6226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:12 +0000
Subject: [PATCH 12/42] fix: scaling polar and math-spherical positions by
 negative scalars

---
 src/coordinax/_src/vectors/d2/polar.py         |  8 ++++++--
 src/coordinax/_src/vectors/d3/mathspherical.py | 13 +++++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/coordinax/_src/vectors/d2/polar.py b/src/coordinax/_src/vectors/d2/polar.py
index aaac9d7..f1f167c 100644
--- a/src/coordinax/_src/vectors/d2/polar.py
+++ b/src/coordinax/_src/vectors/d2/polar.py
@@ -10,6 +10,7 @@ import jax
 from jaxtyping import ArrayLike
 from quax import register
 
+import quaxed.numpy as jnp
 import unxt as u
 from dataclassish import replace
 from dataclassish.converters import Unless
@@ -88,8 +89,11 @@ def _mul_p_vpolar(lhs: ArrayLike, rhs: PolarPos, /) -> PolarPos:
     lhs = eqx.error_if(
         lhs, any(jax.numpy.shape(lhs)), f"must be a scalar, not {type(lhs)}"
     )
-    # Scale the radial distance
-    return replace(rhs, r=lhs * rhs.r)
+    # Scale the radial distance. A negative scalar flips the direction.
+    r = jnp.multiply(lhs, rhs.r.distance)
+    phi = u.Quantity(rhs.phi.value, rhs.phi.unit)
+    phi = jnp.where(r < jnp.zeros_like(r), phi + u.Quantity(180, "deg"), phi)
+    return replace(rhs, r=jnp.abs(r), phi=phi)
 
 
 #####################################################################
diff --git a/src/coordinax/_src/vectors/d3/mathspherical.py b/src/coordinax/_src/vectors/d3/mathspherical.py
index 424277e..38e6eea 100644
--- a/src/coordinax/_src/vectors/d3/mathspherical.py
+++ b/src/coordinax/_src/vectors/d3/mathspherical.py
@@ -216,8 +216,17 @@ def _mul_p_vmsph(lhs: ArrayLike, rhs: MathSphericalPos, /) -> MathSphericalPos:
     lhs = eqx.error_if(
         lhs, any(jax.numpy.shape(lhs)), f"must be a scalar, not {type(lhs)}"
     )
-    # Scale the radial distance
-    return replace(rhs, r=lhs * rhs.r)
+    # Scale the radial distance. A negative scalar flips the direction.
+    r = jnp.multiply(lhs, rhs.r.distance)
+    theta = Quantity(rhs.theta.value, rhs.theta.unit)
+    phi = Quantity(rhs.phi.value, rhs.phi.unit)
+    flip = r < jnp.zeros_like(r)
+    return replace(
+        rhs,
+        r=jnp.abs(r),
+        theta=jnp.where(flip, theta + _180d, theta),
+        phi=jnp.where(flip, -phi + _180d, phi),
+    )
 
 
 ##############################################################################
-- 
2.43.0


From e6bea59373a9df75915bebb11928f336fa5c6828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 13/42] fix: iterating over a vector terminates

---
 src/coordinax/_src/vectors/base/base.py  | 6 +++++-
 src/coordinax/_src/vectors/space/core.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/base/base.py b/src/coordinax/_src/vectors/base/base.py
index ff60886..c81712f 100644
--- a/src/coordinax/_src/vectors/base/base.py
+++ b/src/coordinax/_src/vectors/base/base.py
@@ -8,7 +8,7 @@ __all__ = [
 ]
 
 from abc import abstractmethod
-from collections.abc import Callable, Mapping
+from collections.abc import Callable, Iterator, Mapping
 from enum import Enum
 from functools import reduce
 from types import MappingProxyType
@@ -725,6 +725,10 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
         """
         return self.shape[0] if self.ndim > 0 else 0
 
+    def __iter__(self) -> Iterator["Self"]:
+        """Iterate over the vectors along the first axis."""
+        return (self[i] for i in range(len(self)))
+
     def flatten(self) -> "Self":
         """Flatten the vector.
 
diff --git a/src/coordinax/_src/vectors/space/core.py b/src/coordinax/_src/vectors/space/core.py
index 31e4b44..2296554 100644
--- a/src/coordinax/_src/vectors/space/core.py
+++ b/src/coordinax/_src/vectors/space/core.py
@@ -2,7 +2,7 @@
 
 __all__ = ["Space"]
 
-from collections.abc import Callable, Iterable, Mapping
+from collections.abc import Callable, Iterable, Iterator, Mapping
 from textwrap import indent
 from types import MappingProxyType
 from typing import Any, TypeAlias, final
@@ -254,6 +254,10 @@ class Space(AbstractVector, ImmutableMap[Dimension, AbstractVector]):  # type: i
 
         return ImmutableMap.__getitem__(self, key)
 
+    def __iter__(self) -> Iterator[Dimension]:
+        """Iterate over the keys."""
+        return ImmutableMap.__iter__(self)
+
     # ===============================================================
     # Quax
 
-- 
2.43.0


From 54a2402d1d9d44ae6731aab2ed5d7e8b2fbb8d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 14/42] fix: shape operations broadcast mixed-shape and
 four-vector components

---
 src/coordinax/_src/vectors/base/base.py | 12 ++++++++----
 src/coordinax/_src/vectors/utils.py     | 13 ++++++++++---
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/coordinax/_src/vectors/base/base.py b/src/coordinax/_src/vectors/base/base.py
index c81712f..35383f4 100644
--- a/src/coordinax/_src/vectors/base/base.py
+++ b/src/coordinax/_src/vectors/base/base.py
@@ -348,7 +348,8 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
                                   [1., 3.]], dtype=float32), unit='m')
 
         """
-        return replace(self, **{k: v.mT for k, v in field_items(AttrFilter, self)})
+        full = full_shaped(self)
+        return replace(full, **{k: v.mT for k, v in field_items(AttrFilter, full)})
 
     @property
     def ndim(self) -> int:
@@ -437,7 +438,8 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
                                   [1., 3.]], dtype=float32), unit='m')
 
         """
-        return replace(self, **{k: v.T for k, v in field_items(AttrFilter, self)})
+        full = full_shaped(self)
+        return replace(full, **{k: v.T for k, v in field_items(AttrFilter, full)})
 
     # ---------------------------------------------------------------
     # arithmetic operators
@@ -746,8 +748,9 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
         (4,)
 
         """
+        full = full_shaped(self)
         return replace(
-            self, **{k: v.flatten() for k, v in field_items(AttrFilter, self)}
+            full, **{k: v.flatten() for k, v in field_items(AttrFilter, full)}
         )
 
     def ravel(self) -> "Self":
@@ -767,7 +770,8 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
         (4,)
 
         """
-        return replace(self, **{k: v.ravel() for k, v in field_items(AttrFilter, self)})
+        full = full_shaped(self)
+        return replace(full, **{k: v.ravel() for k, v in field_items(AttrFilter, full)})
 
     def reshape(self, *shape: Any, order: str = "C") -> "Self":
         """Reshape the components of the vector.
diff --git a/src/coordinax/_src/vectors/utils.py b/src/coordinax/_src/vectors/utils.py
index e52e761..4035138 100644
--- a/src/coordinax/_src/vectors/utils.py
+++ b/src/coordinax/_src/vectors/utils.py
@@ -6,7 +6,7 @@ from dataclasses import replace as _dataclass_replace
 from typing import TYPE_CHECKING
 
 import quaxed.numpy as jnp
-from dataclassish import field_values
+from dataclassish import field_items
 
 from .base.flags import AttrFilter
 
@@ -32,5 +32,12 @@ def full_shaped(obj: "AbstractVector", /) -> "AbstractVector":
     (2,)
 
     """
-    arrays = jnp.broadcast_arrays(*field_values(AttrFilter, obj))
-    return _dataclass_replace(obj, **dict(zip(obj.components, arrays, strict=True)))
+    fields = dict(field_items(AttrFilter, obj))
+    shape = jnp.broadcast_shapes(*(v.shape for v in fields.values()))
+    return _dataclass_replace(
+        obj,
+        **{
+            k: v if v.shape == shape else jnp.broadcast_to(v, shape)
+            for k, v in fields.items()
+        },
+    )
-- 
2.43.0


From 6bf749347922efe13875ec5bb92871b9cf036d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 15/42] fix: four-vectors can be compared for equality

---
 src/coordinax/_src/vectors/base/base_pos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/base/base_pos.py b/src/coordinax/_src/vectors/base/base_pos.py
index f895b3f..3e012c8 100644
--- a/src/coordinax/_src/vectors/base/base_pos.py
+++ b/src/coordinax/_src/vectors/base/base_pos.py
@@ -133,7 +133,7 @@ class AbstractPos(AvalMixin, AbstractVector):  # pylint: disable=abstract-method
         if not isinstance(other, AbstractPos):
             return NotImplemented
 
-        rhs = other.represent_as(type(self))
+        rhs = other if type(other) is type(self) else other.represent_as(type(self))
         return super().__eq__(rhs)
 
     # ===============================================================
-- 
2.43.0


From 55e4ae0e047e8c19eb5d99c6367cd9c8b802d3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 16/42] fix: N-dimensional vectors index, ravel, reshape and mT
 batch axes only

---
 src/coordinax/_src/vectors/dn/base.py | 57 ++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 10 deletions(-)

diff --git a/src/coordinax/_src/vectors/dn/base.py b/src/coordinax/_src/vectors/dn/base.py
index 25d8bbc..d960ccd 100644
--- a/src/coordinax/_src/vectors/dn/base.py
+++ b/src/coordinax/_src/vectors/dn/base.py
@@ -24,6 +24,20 @@ if TYPE_CHECKING:
     from typing import Never
 
 
+def _batch_index(index: Any, /) -> tuple[Any, ...]:
+    """Extend an index of the batch axes to keep the component axis."""
+    idx = index if isinstance(index, tuple) else (index,)
+    if any(i is Ellipsis for i in idx):
+        return (*idx, slice(None))
+    return (*idx, Ellipsis, slice(None))
+
+
+def _shape_args(shape: tuple[Any, ...], /) -> tuple[Any, ...]:
+    """Unpack a shape given as a single tuple."""
+    is_tuple = len(shape) == 1 and isinstance(shape[0], tuple | list)
+    return tuple(shape[0]) if is_tuple else shape
+
+
 class AbstractPosND(AbstractPos):
     """Abstract representation of N-D coordinates in different systems."""
 
@@ -70,7 +84,7 @@ class AbstractPosND(AbstractPos):
             ndim < 2,
             f"x must be at least two-dimensional for matrix_transpose; got {ndim=}",
         )
-        axes = (*range(ndim - 3), ndim - 1, ndim - 2, ndim)
+        axes = (*range(ndim - 2), ndim - 1, ndim - 2, ndim)
         return replace(self, q=qlax.transpose(self.q, axes))
 
     @property
@@ -114,6 +128,10 @@ class AbstractPosND(AbstractPos):
     # ===============================================================
     # Further array methods
 
+    def __getitem__(self, index: Any) -> "Self":
+        """Index the batch dimensions, preserving the component axis."""
+        return replace(self, q=self.q[_batch_index(index)])
+
     def flatten(self) -> "Self":
         """Flatten the N-dimensional position.
 
@@ -131,6 +149,10 @@ class AbstractPosND(AbstractPos):
         """
         return replace(self, q=jnp.reshape(self.q, (self.size, self.q.shape[-1]), "C"))
 
+    def ravel(self) -> "Self":
+        """Ravel the batch dimensions, preserving the component axis."""
+        return self.flatten()
+
     def reshape(self, *shape: Any, order: str = "C") -> "Self":
         """Reshape the N-dimensional position.
 
@@ -146,7 +168,8 @@ class AbstractPosND(AbstractPos):
         (1, 2, 1)
 
         """
-        return replace(self, q=self.q.reshape(*shape, self.q.shape[-1], order=order))
+        shape = (*_shape_args(shape), self.q.shape[-1])
+        return replace(self, q=self.q.reshape(*shape, order=order))
 
 
 #####################################################################
@@ -206,7 +229,7 @@ class AbstractVelND(AbstractVel):
             ndim < 2,
             f"x must be at least two-dimensional for matrix_transpose; got {ndim=}",
         )
-        axes = (*range(ndim - 3), ndim - 1, ndim - 2, ndim)
+        axes = (*range(ndim - 2), ndim - 1, ndim - 2, ndim)
         return replace(self, d_q=qlax.transpose(self.d_q, axes))
 
     @property
@@ -250,6 +273,10 @@ class AbstractVelND(AbstractVel):
     # ===============================================================
     # Further array methods
 
+    def __getitem__(self, index: Any) -> "Self":
+        """Index the batch dimensions, preserving the component axis."""
+        return replace(self, d_q=self.d_q[_batch_index(index)])
+
     def flatten(self) -> "Self":
         """Flatten the vector.
 
@@ -268,6 +295,10 @@ class AbstractVelND(AbstractVel):
             self, d_q=jnp.reshape(self.d_q, (self.size, self.d_q.shape[-1]), "C")
         )
 
+    def ravel(self) -> "Self":
+        """Ravel the batch dimensions, preserving the component axis."""
+        return self.flatten()
+
     def reshape(self, *shape: Any, order: str = "C") -> "Self":
         """Reshape the vector.
 
@@ -283,9 +314,8 @@ class AbstractVelND(AbstractVel):
         (1, 1)
 
         """
-        return replace(
-            self, d_q=self.d_q.reshape(*shape, self.d_q.shape[-1], order=order)
-        )
+        shape = (*_shape_args(shape), self.d_q.shape[-1])
+        return replace(self, d_q=self.d_q.reshape(*shape, order=order))
 
 
 #####################################################################
@@ -345,7 +375,7 @@ class AbstractAccND(AbstractAcc):
             ndim < 2,
             f"x must be at least two-dimensional for matrix_transpose; got {ndim=}",
         )
-        axes = (*range(ndim - 3), ndim - 1, ndim - 2, ndim)
+        axes = (*range(ndim - 2), ndim - 1, ndim - 2, ndim)
         return replace(self, d2_q=qlax.transpose(self.d2_q, axes))
 
     @property
@@ -389,6 +419,10 @@ class AbstractAccND(AbstractAcc):
     # ===============================================================
     # Further array methods
 
+    def __getitem__(self, index: Any) -> "Self":
+        """Index the batch dimensions, preserving the component axis."""
+        return replace(self, d2_q=self.d2_q[_batch_index(index)])
+
     def flatten(self) -> "Self":
         """Flatten the vector's batch dimensions, preserving the component axis.
 
@@ -407,6 +441,10 @@ class AbstractAccND(AbstractAcc):
             self, d2_q=jnp.reshape(self.d2_q, (self.size, self.d2_q.shape[-1]), "C")
         )
 
+    def ravel(self) -> "Self":
+        """Ravel the batch dimensions, preserving the component axis."""
+        return self.flatten()
+
     def reshape(self, *shape: Any, order: str = "C") -> "Self":
         """Reshape the vector.
 
@@ -421,6 +459,5 @@ class AbstractAccND(AbstractAcc):
         (1, 1)
 
         """
-        return replace(
-            self, d2_q=self.d2_q.reshape(*shape, self.d2_q.shape[-1], order=order)
-        )
+        shape = (*_shape_args(shape), self.d2_q.shape[-1])
+        return replace(self, d2_q=self.d2_q.reshape(*shape, order=order))
-- 
2.43.0


From 80bddbf84b1dbdf18f8d8e01ffeec6acd7a24bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:09 +0000
Subject: [PATCH 17/42] fix: simplifying successive rotations keeps their order

---
 src/coordinax/_src/operators/galilean/rotation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/operators/galilean/rotation.py b/src/coordinax/_src/operators/galilean/rotation.py
index 3c66d47..8fa7f6c 100644
--- a/src/coordinax/_src/operators/galilean/rotation.py
+++ b/src/coordinax/_src/operators/galilean/rotation.py
@@ -436,4 +436,5 @@ def simplify_op(op1: GalileanRotation, op2: GalileanRotation) -> GalileanRotatio
     Array(True, dtype=bool)
 
     """
-    return GalileanRotation(rotation=op1.rotation @ op2.rotation)
+    # `op1` acts first, so its matrix is the right-most factor.
+    return GalileanRotation(rotation=op2.rotation @ op1.rotation)
-- 
2.43.0


From e4f7f584133fcb6d0a26176d8c7a8adcdc40fb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:09 +0000
Subject: [PATCH 18/42] fix: operators keep the speed of light of a four-vector

---
 src/coordinax/_src/operators/compat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/operators/compat.py b/src/coordinax/_src/operators/compat.py
index 2068af2..1e778aa 100644
--- a/src/coordinax/_src/operators/compat.py
+++ b/src/coordinax/_src/operators/compat.py
@@ -3,6 +3,7 @@
 __all__: list[str] = []
 
 
+from dataclasses import replace
 from typing import Any, TypeAlias
 
 from jaxtyping import Shaped
@@ -215,7 +216,7 @@ def call(self: AbstractOperator, v4: FourVector, /, **kwargs: Any) -> FourVector
 
     """
     q, t = self(v4.q, v4.t, **kwargs)
-    return FourVector(t=t, q=q)
+    return replace(v4, t=t, q=q)
 
 
 @AbstractOperator.__call__.dispatch
-- 
2.43.0


From 6f9c1d74f565d1ba5b656887dde5c5a4d61a64d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:09 +0000
Subject: [PATCH 19/42] fix: spatial translations of any dimension can be
 simplified

---
 src/coordinax/_src/operators/galilean/spatial_translation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/coordinax/_src/operators/galilean/spatial_translation.py b/src/coordinax/_src/operators/galilean/spatial_translation.py
index 873627e..700cde3 100644
--- a/src/coordinax/_src/operators/galilean/spatial_translation.py
+++ b/src/coordinax/_src/operators/galilean/spatial_translation.py
@@ -388,9 +388,8 @@ def simplify_op(
 
     """
     # Check if the translation is zero.
-    if jnp.allclose(
-        convert(op.translation, u.Quantity).value, jnp.zeros((3,)), **kwargs
-    ):
+    value = convert(op.translation, u.Quantity).value
+    if jnp.allclose(value, jnp.zeros_like(value), **kwargs):
         return Identity()
     return op
 
-- 
2.43.0


From 3d005779b33892680f97bcf3c535a4b118215ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 20/42] fix: 2-D Cartesian velocities have a norm

---
 src/coordinax/_src/vectors/d2/cartesian.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/coordinax/_src/vectors/d2/cartesian.py b/src/coordinax/_src/vectors/d2/cartesian.py
index acc4a6e..5a40a18 100644
--- a/src/coordinax/_src/vectors/d2/cartesian.py
+++ b/src/coordinax/_src/vectors/d2/cartesian.py
@@ -185,6 +185,14 @@ class CartesianVel2D(AvalMixin, AbstractVel2D):
     def differential_cls(cls) -> type["CartesianAcc2D"]:
         return CartesianAcc2D
 
+    # -----------------------------------------------------
+
+    @override
+    @partial(eqx.filter_jit, inline=True)
+    def norm(self, _: AbstractPos2D | None = None, /) -> ct.BatchableSpeed:
+        """Return the norm of the vector."""
+        return jnp.sqrt(self.d_x**2 + self.d_y**2)
+
 
 # -----------------------------------------------------
 
-- 
2.43.0


From aa0bc44950b22ab52577fc0a63703c82f58f0c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:22 +0000
Subject: [PATCH 21/42] fix: four-vectors and spaces convert their units

uconvert looked up the dimension of the nested vector, which has none,
and raised.
---
 src/coordinax/_src/vectors/base/compat.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/base/compat.py b/src/coordinax/_src/vectors/base/compat.py
index 8295153..9903494 100644
--- a/src/coordinax/_src/vectors/base/compat.py
+++ b/src/coordinax/_src/vectors/base/compat.py
@@ -224,7 +224,11 @@ def uconvert(usys: u.AbstractUnitSystem, vector: AbstractVector, /) -> AbstractV
     return replace(
         vector,
         **{
-            k: u.uconvert(usys[u.dimension_of(v)], v)
+            k: u.uconvert(
+                # nested vectors, e.g. of a four-vector, convert their components
+                usys if isinstance(v, AbstractVector) else usys[u.dimension_of(v)],
+                v,
+            )
             for k, v in field_items(AttrFilter, vector)
         },
     )
@@ -267,7 +271,10 @@ def uconvert(
     return replace(
         vector,
         **{
-            k: u.uconvert(units_[u.dimension_of(v)], v)
+            k: u.uconvert(
+                units_ if isinstance(v, AbstractVector) else units_[u.dimension_of(v)],
+                v,
+            )
             for k, v in field_items(AttrFilter, vector)
         },
     )
@@ -318,6 +325,9 @@ def uconvert(
     dim2unit = {}
     units_ = {}
     for k, v in field_items(AttrFilter, vector):
+        if isinstance(v, AbstractVector):  # nested vectors convert themselves
+            units_[k] = flag
+            continue
         pt = u.dimension_of(v)
         if pt not in dim2unit:
             dim2unit[pt] = u.unit_of(v)
-- 
2.43.0


From ac7aeb157b0e2852f363cf7f8b39c2991c1b22d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:58 +0000
Subject: [PATCH 22/42] fix: broadcasting a prolate position keeps its focal
 length scalar

---
 src/coordinax/_src/vectors/base/register_primitives.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/base/register_primitives.py b/src/coordinax/_src/vectors/base/register_primitives.py
index 3368038..2c7ac41 100644
--- a/src/coordinax/_src/vectors/base/register_primitives.py
+++ b/src/coordinax/_src/vectors/base/register_primitives.py
@@ -11,6 +11,7 @@ import quaxed.numpy as jnp
 from dataclassish import field_items, replace
 
 from .base import AbstractVector
+from .flags import AttrFilter
 
 
 @register(jax.lax.convert_element_type_p)  # type: ignore[misc]
@@ -135,5 +136,5 @@ def _broadcast_in_dim_p(
     c_shape = shape[:-1]
     return replace(
         operand,
-        **{k: jnp.broadcast_to(v, c_shape) for k, v in field_items(operand)},
+        **{k: jnp.broadcast_to(v, c_shape) for k, v in field_items(AttrFilter, operand)},
     )
-- 
2.43.0


From f8e080b526f796da204ee1aa98fc88aa1e58196f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:22 +0000
Subject: [PATCH 23/42] fix: from_ of a concrete vector class never returns
 another class

SphericalPos.from_ of a quantity or of another 3-D vector returned a
Cartesian (or the given) vector; raise, as AbstractVector.from_ does.
---
 src/coordinax/_src/vectors/d3/constructor.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/coordinax/_src/vectors/d3/constructor.py b/src/coordinax/_src/vectors/d3/constructor.py
index 4e04c56..262f6f9 100644
--- a/src/coordinax/_src/vectors/d3/constructor.py
+++ b/src/coordinax/_src/vectors/d3/constructor.py
@@ -29,6 +29,9 @@ def from_(cls: type[AbstractPos3D], obj: Any, /) -> CartesianPos3D:
     )
 
     """
+    if not issubclass(CartesianPos3D, cls):
+        msg = f"Cannot construct {cls} from {type(obj)}."
+        raise TypeError(msg)
     return obj if isinstance(obj, CartesianPos3D) else CartesianPos3D.from_(obj)
 
 
@@ -53,6 +56,9 @@ def from_(cls: type[AbstractPos3D], obj: AbstractPos3D, /) -> AbstractPos3D:
     True
 
     """
+    if not isinstance(obj, cls):
+        msg = f"Cannot construct {cls} from {type(obj)}."
+        raise TypeError(msg)
     return obj
 
 
@@ -77,6 +83,9 @@ def from_(cls: type[AbstractVel3D], obj: Any, /) -> CartesianVel3D:
     )
 
     """
+    if not issubclass(CartesianVel3D, cls):
+        msg = f"Cannot construct {cls} from {type(obj)}."
+        raise TypeError(msg)
     return obj if isinstance(obj, CartesianVel3D) else CartesianVel3D.from_(obj)
 
 
@@ -103,6 +112,9 @@ def from_(cls: type[AbstractVel3D], obj: AbstractVel3D, /) -> AbstractVel3D:
     True
 
     """
+    if not isinstance(obj, cls):
+        msg = f"Cannot construct {cls} from {type(obj)}."
+        raise TypeError(msg)
     return obj
 
 
@@ -127,6 +139,9 @@ def from_(cls: type[AbstractAcc3D], obj: Any, /) -> CartesianAcc3D:
     )
 
     """
+    if not issubclass(CartesianAcc3D, cls):
+        msg = f"Cannot construct {cls} from {type(obj)}."
+        raise TypeError(msg)
     return obj if isinstance(obj, CartesianAcc3D) else CartesianAcc3D.from_(obj)
 
 
@@ -154,4 +169,7 @@ def from_(cls: type[AbstractAcc3D], obj: AbstractAcc3D, /) -> AbstractAcc3D:
     True
 
     """
+    if not isinstance(obj, cls):
+        msg = f"Cannot construct {cls} from {type(obj)}."
+        raise TypeError(msg)
     return obj
-- 
2.43.0


From 153e0d0b1ee53a97f753a5dcbc67b35e6bf63950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:03 +0000
Subject: [PATCH 24/42] fix: 1-D vectors from a batch of values keep every
 value

An array whose last axis was not of length 1 kept only its first column.
---
 src/coordinax/_src/vectors/d1/base.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/coordinax/_src/vectors/d1/base.py b/src/coordinax/_src/vectors/d1/base.py
index e7f443f..869e740 100644
--- a/src/coordinax/_src/vectors/d1/base.py
+++ b/src/coordinax/_src/vectors/d1/base.py
@@ -10,6 +10,7 @@ from jaxtyping import Shaped
 
 import quaxed.numpy as jnp
 import unxt as u
+from unxt.quantity import AbstractQuantity
 
 from coordinax._src.utils import classproperty
 from coordinax._src.vectors.base import (
@@ -22,6 +23,14 @@ from coordinax._src.vectors.base import (
 #####################################################################
 
 
+def _components(obj: AbstractQuantity, /) -> AbstractQuantity:
+    """Return the quantity with a last axis of length 1, for the component."""
+    return obj if obj.shape[-1:] == (1,) else jnp.expand_dims(obj, -1)
+
+
+#####################################################################
+
+
 class AbstractPos1D(AbstractPos):
     """Abstract representation of 1D coordinates in different systems."""
 
@@ -69,7 +78,7 @@ def from_(
     RadialPos(r=Distance(value=f32[], unit=Unit("m")))
 
     """
-    comps = {f.name: jnp.atleast_1d(obj)[..., i] for i, f in enumerate(fields(cls))}
+    comps = {f.name: _components(obj)[..., i] for i, f in enumerate(fields(cls))}
     return cls(**comps)
 
 
@@ -129,7 +138,7 @@ def from_(
     RadialVel( d_r=Quantity[...]( value=i32[], unit=Unit("m / s") ) )
 
     """
-    comps = {f.name: jnp.atleast_1d(obj)[..., i] for i, f in enumerate(fields(cls))}
+    comps = {f.name: _components(obj)[..., i] for i, f in enumerate(fields(cls))}
     return cls(**comps)
 
 
@@ -183,5 +192,5 @@ def from_(
     RadialAcc( d2_r=Quantity[...](value=i32[], unit=Unit("m / s2")) )
 
     """
-    comps = {f.name: jnp.atleast_1d(obj)[..., i] for i, f in enumerate(fields(cls))}
+    comps = {f.name: _components(obj)[..., i] for i, f in enumerate(fields(cls))}
     return cls(**comps)
-- 
2.43.0


From 1797b8ea946255f6849d096c5b48f9d41300b3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:03 +0000
Subject: [PATCH 25/42] fix: Cartesian vectors are not built from the wrong
 number of components

JAX clamps out-of-range indices, so missing components repeated the last one.
---
 src/coordinax/_src/vectors/checks.py       | 20 ++++++++++++++++++++
 src/coordinax/_src/vectors/d2/cartesian.py |  4 ++++
 src/coordinax/_src/vectors/d3/cartesian.py |  3 +++
 src/coordinax/_src/vectors/d3/generic.py   |  2 ++
 4 files changed, 29 insertions(+)

diff --git a/src/coordinax/_src/vectors/checks.py b/src/coordinax/_src/vectors/checks.py
index b94a9a0..16e51fa 100644
--- a/src/coordinax/_src/vectors/checks.py
+++ b/src/coordinax/_src/vectors/checks.py
@@ -2,6 +2,7 @@
 
 __all__: list[str] = []
 
+from dataclasses import fields
 
 import equinox as eqx
 
@@ -260,3 +261,22 @@ def check_greater_than_equal(
     name = f" {name}" if name else name
     msg = f"The input{name} must be greater than or equal to {comparison_name}."
     return eqx.error_if(x, xp.any(x < min_val), msg)
+
+
+def check_n_components(cls: type, obj: AbstractQuantity, /) -> None:
+    """Check that the last axis holds one entry per component of the class.
+
+    Examples
+    --------
+    >>> import unxt as u
+    >>> import coordinax as cx
+
+    >>> check_n_components(cx.CartesianPos3D, u.Quantity([1, 2, 3], "m"))
+
+    >>> try: check_n_components(cx.CartesianPos3D, u.Quantity([1, 2], "m"))
+    ... except ValueError: pass
+
+    """
+    if obj.shape[-1:] != (len(fields(cls)),):
+        msg = f"Cannot construct {cls} from array with shape {obj.shape}."
+        raise ValueError(msg)
diff --git a/src/coordinax/_src/vectors/d2/cartesian.py b/src/coordinax/_src/vectors/d2/cartesian.py
index 5a40a18..66c72a0 100644
--- a/src/coordinax/_src/vectors/d2/cartesian.py
+++ b/src/coordinax/_src/vectors/d2/cartesian.py
@@ -27,6 +27,7 @@ from coordinax._src.distances import BatchableLength
 from coordinax._src.utils import classproperty, is_quantity
 from coordinax._src.vectors.base import AbstractPos
 from coordinax._src.vectors.base.mixins import AvalMixin
+from coordinax._src.vectors.checks import check_n_components
 
 
 @final
@@ -71,6 +72,7 @@ def from_(
     )
 
     """
+    check_n_components(cls, obj)
     comps = {f.name: obj[..., i] for i, f in enumerate(fields(cls))}
     return cls(**comps)
 
@@ -216,6 +218,7 @@ def from_(
     )
 
     """
+    check_n_components(cls, obj)
     comps = {f.name: obj[..., i] for i, f in enumerate(fields(cls))}
     return cls(**comps)
 
@@ -329,6 +332,7 @@ def from_(cls: type[CartesianAcc2D], obj: AbstractQuantity, /) -> CartesianAcc2D
     )
 
     """
+    check_n_components(cls, obj)
     comps = {f.name: obj[..., i] for i, f in enumerate(fields(cls))}
     return cls(**comps)
 
diff --git a/src/coordinax/_src/vectors/d3/cartesian.py b/src/coordinax/_src/vectors/d3/cartesian.py
index 73a7729..419d5c6 100644
--- a/src/coordinax/_src/vectors/d3/cartesian.py
+++ b/src/coordinax/_src/vectors/d3/cartesian.py
@@ -30,6 +30,7 @@ from coordinax._src.distances import BatchableLength
 from coordinax._src.utils import classproperty, is_quantity
 from coordinax._src.vectors.base import AbstractPos
 from coordinax._src.vectors.base.mixins import AvalMixin
+from coordinax._src.vectors.checks import check_n_components
 
 #####################################################################
 # Position
@@ -88,6 +89,7 @@ def from_(
     )
 
     """
+    check_n_components(cls, obj)
     comps = {f.name: obj[..., i] for i, f in enumerate(fields(cls))}
     return cls(**comps)
 
@@ -375,6 +377,7 @@ def from_(
     )
 
     """
+    check_n_components(cls, obj)
     comps = {f.name: obj[..., i] for i, f in enumerate(fields(cls))}
     return cls(**comps)
 
diff --git a/src/coordinax/_src/vectors/d3/generic.py b/src/coordinax/_src/vectors/d3/generic.py
index c7b56ca..4132e26 100644
--- a/src/coordinax/_src/vectors/d3/generic.py
+++ b/src/coordinax/_src/vectors/d3/generic.py
@@ -17,6 +17,7 @@ from unxt.quantity import AbstractQuantity, Quantity
 import coordinax._src.typing as ct
 from coordinax._src.vectors.base import AbstractVector
 from coordinax._src.vectors.base.mixins import AvalMixin
+from coordinax._src.vectors.checks import check_n_components
 
 VT = TypeVar("VT", bound="CartesianGeneric3D")
 
@@ -95,5 +96,6 @@ def from_(
     )
 
     """
+    check_n_components(cls, obj)
     comps = {f.name: obj[..., i] for i, f in enumerate(fields(cls))}
     return cls(**comps)
-- 
2.43.0


From f0139f6a9d1aecd262bf93f6dfae0348a06c55d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:39 +0000
Subject: [PATCH 26/42] fix: four-vectors can be copied and pickled

Looking up an attribute before 'q' is set recursed without end.
---
 src/coordinax/_src/vectors/d4/spacetime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/coordinax/_src/vectors/d4/spacetime.py b/src/coordinax/_src/vectors/d4/spacetime.py
index bfe21a8..8a94875 100644
--- a/src/coordinax/_src/vectors/d4/spacetime.py
+++ b/src/coordinax/_src/vectors/d4/spacetime.py
@@ -167,6 +167,8 @@ class FourVector(AbstractPos4D):
         Quantity['length'](Array(1., dtype=float32), unit='m')
 
         """
+        if "q" not in self.__dict__:  # not initialised, e.g. during unpickling
+            raise AttributeError(name)
         return getattr(self.q, name)
 
     # -------------------------------------------
-- 
2.43.0


From c310a66902b4cf6874410b6738920b12074e6eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:24 +0000
Subject: [PATCH 27/42] fix: a four-vector with an unbatched time converts to
 an array

---
 src/coordinax/_src/vectors/d4/compat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/d4/compat.py b/src/coordinax/_src/vectors/d4/compat.py
index 4ec6cf8..5f6062e 100644
--- a/src/coordinax/_src/vectors/d4/compat.py
+++ b/src/coordinax/_src/vectors/d4/compat.py
@@ -16,4 +16,5 @@ from .spacetime import FourVector
 def vec_to_q(obj: FourVector, /) -> Shaped[u.Quantity["length"], "*batch 4"]:
     """`coordinax.AbstractPos3D` -> `unxt.Quantity`."""
     cart = convert(obj.q, u.Quantity)
-    return jnp.concat([obj.c * obj.t[..., None], cart], axis=-1)
+    ct = jnp.broadcast_to(obj.c * obj.t, cart.shape[:-1])
+    return jnp.concat([ct[..., None], cart], axis=-1)
-- 
2.43.0


From c0ef82351bf2d74cb21d7905ef0baeb553bc5d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:12 +0000
Subject: [PATCH 28/42] fix: N-dimensional positions convert to any quantity
 class with one component axis

---
 src/coordinax/_src/vectors/dn/cartesian.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/dn/cartesian.py b/src/coordinax/_src/vectors/dn/cartesian.py
index eefdf73..31e97c2 100644
--- a/src/coordinax/_src/vectors/dn/cartesian.py
+++ b/src/coordinax/_src/vectors/dn/cartesian.py
@@ -10,16 +10,17 @@ from typing_extensions import override
 import equinox as eqx
 import jax
 from jaxtyping import ArrayLike, Shaped
-from plum import conversion_method
+from plum import conversion_method, convert
 from quax import register
 
 import quaxed.lax as qlax
 import quaxed.numpy as jnp
 import unxt as u
+from unxt.quantity import AbstractQuantity, UncheckedQuantity
 
 import coordinax._src.typing as ct
 from .base import AbstractAccND, AbstractPosND, AbstractVelND
-from coordinax._src.distances import BatchableLength
+from coordinax._src.distances import BatchableLength, Distance
 from coordinax._src.utils import classproperty
 from coordinax._src.vectors.base import AbstractPos
 from coordinax._src.vectors.base.mixins import AvalMixin
@@ -174,6 +175,7 @@ def from_(
     return cls(jnp.atleast_1d(x))
 
 
+@conversion_method(CartesianPosND, AbstractQuantity)  # type: ignore[misc]
 @conversion_method(CartesianPosND, u.Quantity)  # type: ignore[misc]
 def _vec_to_q(obj: CartesianPosND, /) -> Shaped[u.Quantity["length"], "*batch N"]:
     """`coordinax.AbstractPos3D` -> `unxt.Quantity`.
@@ -192,6 +194,18 @@ def _vec_to_q(obj: CartesianPosND, /) -> Shaped[u.Quantity["length"], "*batch N"
     return obj.q
 
 
+@conversion_method(CartesianPosND, UncheckedQuantity)  # type: ignore[misc]
+def _vec_to_uncheckedq(obj: CartesianPosND, /) -> Shaped[UncheckedQuantity, "*batch N"]:
+    """`coordinax.CartesianPosND` -> `unxt.UncheckedQuantity`."""
+    return convert(obj.q, UncheckedQuantity)
+
+
+@conversion_method(CartesianPosND, Distance)  # type: ignore[misc]
+def _vec_to_distance(obj: CartesianPosND, /) -> Shaped[Distance, "*batch N"]:
+    """`coordinax.CartesianPosND` -> `coordinax.Distance`."""
+    return convert(obj.q, Distance)
+
+
 @register(jax.lax.add_p)  # type: ignore[misc]
 def _add_vcnd(lhs: CartesianPosND, rhs: AbstractPos, /) -> CartesianPosND:
     """Add two vectors.
-- 
2.43.0


From 473138a9a71fc81eb2bc6f906aa1501359543276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 29/42] fix: members of a space of different shapes act as if
 broadcast together

Indexing a space indexed the leading axes of each member separately, and
reshaping or converting it raised.
---
 src/coordinax/_src/vectors/space/core.py |  5 ++++-
 src/coordinax/_src/vectors/utils.py      | 25 ++++++++++++++++++------
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/coordinax/_src/vectors/space/core.py b/src/coordinax/_src/vectors/space/core.py
index 2296554..487bbdc 100644
--- a/src/coordinax/_src/vectors/space/core.py
+++ b/src/coordinax/_src/vectors/space/core.py
@@ -27,6 +27,7 @@ from coordinax._src.vectors.base import (
     AbstractVector,
     AbstractVel,
 )
+from coordinax._src.vectors.utils import full_shaped
 
 DimensionLike: TypeAlias = Dimension | str
 
@@ -217,7 +218,8 @@ class Space(AbstractVector, ImmutableMap[Dimension, AbstractVector]):  # type: i
         highlights core python indexing.
 
         """
-        return Space(**{k: v[key] for k, v in self.items()})
+        full = full_shaped(self)  # all members have the shape of the space
+        return Space(**{k: v[key] for k, v in full.items()})
 
     @dispatch
     def __getitem__(self, key: str | Dimension) -> Any:
@@ -583,6 +585,7 @@ def from_(cls: type[Space], obj: Space, /) -> Space:
 @dispatch  # type: ignore[misc]
 def represent_as(space: Space, target: type[AbstractVector], /) -> Space:
     """Represent the current vector to the target vector."""
+    space = full_shaped(space)  # each rate is converted at its own position
     return type(space)(
         {k: temp_represent_as(v, target, space) for k, v in space.items()}
     )
diff --git a/src/coordinax/_src/vectors/utils.py b/src/coordinax/_src/vectors/utils.py
index 4035138..11051c4 100644
--- a/src/coordinax/_src/vectors/utils.py
+++ b/src/coordinax/_src/vectors/utils.py
@@ -2,11 +2,10 @@
 
 __all__: list[str] = []
 
-from dataclasses import replace as _dataclass_replace
-from typing import TYPE_CHECKING
+from typing import TYPE_CHECKING, Any
 
 import quaxed.numpy as jnp
-from dataclassish import field_items
+from dataclassish import field_items, replace
 
 from .base.flags import AttrFilter
 
@@ -34,10 +33,24 @@ def full_shaped(obj: "AbstractVector", /) -> "AbstractVector":
     """
     fields = dict(field_items(AttrFilter, obj))
     shape = jnp.broadcast_shapes(*(v.shape for v in fields.values()))
-    return _dataclass_replace(
+    return replace(obj, **{k: _broadcast_to(v, shape) for k, v in fields.items()})
+
+
+def _broadcast_to(obj: Any, shape: tuple[int, ...], /) -> Any:
+    """Broadcast an array, or each component of a (nested) vector."""
+    if obj.shape == shape:
+        return obj
+    if not hasattr(obj, "components"):
+        return jnp.broadcast_to(obj, shape)
+
+    def component_shape(v: Any) -> tuple[int, ...]:
+        # the components of N-dimensional vectors have an axis of their own
+        return (*shape, *v.shape[obj.ndim :])
+
+    return replace(
         obj,
         **{
-            k: v if v.shape == shape else jnp.broadcast_to(v, shape)
-            for k, v in fields.items()
+            k: _broadcast_to(v, component_shape(v))
+            for k, v in field_items(AttrFilter, obj)
         },
     )
-- 
2.43.0


From 05e1183a093debc5f51fb321d9559256b9eef4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 30/42] fix: a space with two members of the same dimension is
 rejected

---
 src/coordinax/_src/vectors/space/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/space/core.py b/src/coordinax/_src/vectors/space/core.py
index 487bbdc..8078f8a 100644
--- a/src/coordinax/_src/vectors/space/core.py
+++ b/src/coordinax/_src/vectors/space/core.py
@@ -114,7 +114,7 @@ class Space(AbstractVector, ImmutableMap[Dimension, AbstractVector]):  # type: i
         keys = [_get_dimension_name(k) for k in raw]
         keys = eqx.error_if(
             keys,
-            len(keys) < len(raw),
+            len(set(keys)) < len(raw),
             f"Space(**input) contained duplicate keys {set(raw) - set(keys)}.",
         )
         # TODO: check the key dimension makes sense for the value
-- 
2.43.0


From f3809c69e0cb85b19472689c6a538c614c44befa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:40 +0000
Subject: [PATCH 31/42] fix: composite operators act on plain quantities

---
 src/coordinax/_src/operators/compat.py | 44 ++++++++++++++++++--------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/coordinax/_src/operators/compat.py b/src/coordinax/_src/operators/compat.py
index 1e778aa..5474a2c 100644
--- a/src/coordinax/_src/operators/compat.py
+++ b/src/coordinax/_src/operators/compat.py
@@ -12,7 +12,7 @@ from plum import convert
 import unxt as u
 
 from .base import AbstractOperator
-from .pipe import Pipe
+from .composite import AbstractCompositeOperator
 from coordinax._src.typing import TimeBatchOrScalar
 from coordinax._src.vectors.d1 import CartesianPos1D
 from coordinax._src.vectors.d2 import CartesianPos2D
@@ -25,7 +25,10 @@ from coordinax._src.vectors.d4 import FourVector
 Q1: TypeAlias = Shaped[u.Quantity["length"], "*#batch 1"]
 
 
-@AbstractOperator.__call__.dispatch
+@AbstractOperator.__call__.dispatch_multi(
+    (AbstractOperator, Q1),
+    (AbstractCompositeOperator, Q1),
+)
 def call(self: AbstractOperator, x: Q1, /, **kwargs: Any) -> Q1:
     """Dispatch to the operator's `__call__` method.
 
@@ -44,7 +47,10 @@ def call(self: AbstractOperator, x: Q1, /, **kwargs: Any) -> Q1:
     return convert(self(CartesianPos1D.from_(x), **kwargs), u.Quantity)
 
 
-@AbstractOperator.__call__.dispatch
+@AbstractOperator.__call__.dispatch_multi(
+    (AbstractOperator, Q1, TimeBatchOrScalar),
+    (AbstractCompositeOperator, Q1, TimeBatchOrScalar),
+)
 def call(
     self: AbstractOperator, x: Q1, t: TimeBatchOrScalar, /, **kwargs: Any
 ) -> tuple[Q1, TimeBatchOrScalar]:
@@ -73,7 +79,10 @@ def call(
 Q2: TypeAlias = Shaped[u.Quantity["length"], "*#batch 2"]
 
 
-@AbstractOperator.__call__.dispatch
+@AbstractOperator.__call__.dispatch_multi(
+    (AbstractOperator, Q2),
+    (AbstractCompositeOperator, Q2),
+)
 def call(self: AbstractOperator, x: Q2, /, **kwargs: Any) -> Q2:
     """Dispatch to the operator's `__call__` method.
 
@@ -91,7 +100,10 @@ def call(self: AbstractOperator, x: Q2, /, **kwargs: Any) -> Q2:
     return convert(self(CartesianPos2D.from_(x), **kwargs), u.Quantity)
 
 
-@AbstractOperator.__call__.dispatch
+@AbstractOperator.__call__.dispatch_multi(
+    (AbstractOperator, Q2, TimeBatchOrScalar),
+    (AbstractCompositeOperator, Q2, TimeBatchOrScalar),
+)
 def call(
     self: AbstractOperator, x: Q2, t: TimeBatchOrScalar, /, **kwargs: Any
 ) -> tuple[Q2, TimeBatchOrScalar]:
@@ -122,7 +134,7 @@ Q3: TypeAlias = Shaped[u.Quantity["length"], "*#batch 3"]
 
 @AbstractOperator.__call__.dispatch_multi(
     (AbstractOperator, Q3),
-    (Pipe, Q3),
+    (AbstractCompositeOperator, Q3),
 )
 def call(self: AbstractOperator, q: Q3, /, **kwargs: Any) -> Q3:
     r"""Operate on a 3D Quantity.
@@ -153,7 +165,10 @@ def call(self: AbstractOperator, q: Q3, /, **kwargs: Any) -> Q3:
     return convert(result.represent_as(CartesianPos3D), u.Quantity)
 
 
-@AbstractOperator.__call__.dispatch
+@AbstractOperator.__call__.dispatch_multi(
+    (AbstractOperator, Q3, TimeBatchOrScalar),
+    (AbstractCompositeOperator, Q3, TimeBatchOrScalar),
+)
 def call(
     self: AbstractOperator, x: Q3, t: TimeBatchOrScalar, /, **kwargs: Any
 ) -> tuple[Q3, TimeBatchOrScalar]:
@@ -219,13 +234,14 @@ def call(self: AbstractOperator, v4: FourVector, /, **kwargs: Any) -> FourVector
     return replace(v4, t=t, q=q)
 
 
-@AbstractOperator.__call__.dispatch
-def call(
-    self: AbstractOperator,
-    x: Shaped[u.Quantity["length"], "*batch 4"],
-    /,
-    **kwargs: Any,
-) -> Shaped[u.Quantity["length"], "*batch 4"]:
+Q4: TypeAlias = Shaped[u.Quantity["length"], "*batch 4"]
+
+
+@AbstractOperator.__call__.dispatch_multi(
+    (AbstractOperator, Q4),
+    (AbstractCompositeOperator, Q4),
+)
+def call(self: AbstractOperator, x: Q4, /, **kwargs: Any) -> Q4:
     """Dispatch to the operator's `__call__` method.
 
     Examples
-- 
2.43.0


From fb625f2dfa9a385326a2f814d77d1d80e09c70f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:40 +0000
Subject: [PATCH 32/42] fix: Pipe passes on and returns a single argument as it
 is

---
 src/coordinax/_src/operators/pipe.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/coordinax/_src/operators/pipe.py b/src/coordinax/_src/operators/pipe.py
index eee7760..121f431 100644
--- a/src/coordinax/_src/operators/pipe.py
+++ b/src/coordinax/_src/operators/pipe.py
@@ -89,7 +89,7 @@ class Pipe(AbstractCompositeOperator):
     @AbstractOperator.__call__.dispatch
     def __call__(
         self: "AbstractCompositeOperator", *args: object, **kwargs: Any
-    ) -> tuple[object, ...]:
+    ) -> Any:
         """Apply the operators to the coordinates.
 
         This is the default implementation, which applies the operators in
@@ -104,9 +104,11 @@ class Pipe(AbstractCompositeOperator):
         (1, 2, 3)
 
         """
+        out: Any = args[0] if len(args) == 1 else args
         for op in self.operators:
-            args = op(*args, **kwargs)
-        return args
+            out = op(*args, **kwargs)
+            args = out if isinstance(out, tuple) else (out,)
+        return out
 
     @AbstractOperator.__call__.dispatch(precedence=1)
     def __call__(
-- 
2.43.0


From 44a4a87596f3d4c0b287877926ebccd432d2f515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:40 +0000
Subject: [PATCH 33/42] fix: operator | Pipe prepends the operator

---
 src/coordinax/_src/operators/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinax/_src/operators/base.py b/src/coordinax/_src/operators/base.py
index 3e4a844..23c483b 100644
--- a/src/coordinax/_src/operators/base.py
+++ b/src/coordinax/_src/operators/base.py
@@ -232,7 +232,7 @@ class AbstractOperator(eqx.Module):  # type: ignore[misc]
         from .pipe import Pipe
 
         if isinstance(other, Pipe):
-            return other.__ror__(self)
+            return Pipe((self, *other.operators))
         return Pipe((self, other))
 
 
-- 
2.43.0


From 04194dacf715998fa79ddf7b551305769fbc23c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:40 +0000
Subject: [PATCH 34/42] fix: spatial translation of batched positions with
 velocities

---
 .../_src/operators/galilean/spatial_translation.py    | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/coordinax/_src/operators/galilean/spatial_translation.py b/src/coordinax/_src/operators/galilean/spatial_translation.py
index 700cde3..5b32172 100644
--- a/src/coordinax/_src/operators/galilean/spatial_translation.py
+++ b/src/coordinax/_src/operators/galilean/spatial_translation.py
@@ -348,10 +348,13 @@ def call(
     # 1. convert to a Quantity in Cartesian coordinates.
     q = convert(qvec.represent_as(qvec._cartesian_cls), u.Quantity)  # noqa: SLF001
     p = convert(pvec.represent_as(pvec._cartesian_cls, q), u.Quantity)  # noqa: SLF001
-    # 2. create the Jacobian of the operation on the position
-    jac = u.experimental.jacfwd(self.__call__, argnums=0, units=(q.unit,))(q)
-    # 3. apply the Jacobian to the velocity
-    newp = jac @ p
+    # 2. create the Jacobian of the operation on the position (of a single point)
+    jac = u.experimental.jacfwd(self.__call__, argnums=0, units=(q.unit,))
+    # 3. apply the Jacobian to the velocity, point by point
+    flat_shape = (-1, q.shape[-1])
+    newp = jax.vmap(lambda q, p: jac(q) @ p)(
+        q.reshape(flat_shape), p.reshape(flat_shape)
+    ).reshape(p.shape)
     # 4. convert the Quantity back to a Cartesian vector
     newpvec = pvec._cartesian_cls.from_(newp)  # noqa: SLF001
     # 5. convert the Quantity to the original vector type
-- 
2.43.0


From eba3a6d5f1ae1b84ac7b281c1d84c34bafb97d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:40 +0000
Subject: [PATCH 35/42] fix: merging spatial translations of different
 dimension keeps all components

---
 .../_src/operators/galilean/spatial_translation.py          | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/operators/galilean/spatial_translation.py b/src/coordinax/_src/operators/galilean/spatial_translation.py
index 5b32172..0bbbfff 100644
--- a/src/coordinax/_src/operators/galilean/spatial_translation.py
+++ b/src/coordinax/_src/operators/galilean/spatial_translation.py
@@ -419,4 +419,8 @@ def simplify_op(
     Array(True, dtype=bool)
 
     """
-    return GalileanSpatialTranslation(op1.translation + op2.translation)
+    # The sum is of the class of its first term: let it have all the dimensions.
+    t1, t2 = op1.translation, op2.translation
+    if len(t1.components) < len(t2.components):
+        t1, t2 = t2, t1
+    return GalileanSpatialTranslation(t1 + t2)
-- 
2.43.0


From a5df9acee6c69724ab2d97545082425281595590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:40 +0000
Subject: [PATCH 36/42] fix: boosts of any dimension simplify

---
 src/coordinax/_src/operators/boost.py          | 3 ++-
 src/coordinax/_src/operators/galilean/boost.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/operators/boost.py b/src/coordinax/_src/operators/boost.py
index 64d7da7..1f52b98 100644
--- a/src/coordinax/_src/operators/boost.py
+++ b/src/coordinax/_src/operators/boost.py
@@ -286,7 +286,8 @@ def simplify_op(op: VelocityBoost, /, **kwargs: Any) -> VelocityBoost | Identity
 
     """
     # Check if the velocity is zero.
-    if jnp.allclose(convert(op.velocity, u.Quantity).value, jnp.zeros((3,)), **kwargs):
+    value = convert(op.velocity, u.Quantity).value
+    if jnp.allclose(value, jnp.zeros_like(value), **kwargs):
         return Identity()
     return op
 
diff --git a/src/coordinax/_src/operators/galilean/boost.py b/src/coordinax/_src/operators/galilean/boost.py
index c0f47c7..50d4104 100644
--- a/src/coordinax/_src/operators/galilean/boost.py
+++ b/src/coordinax/_src/operators/galilean/boost.py
@@ -227,7 +227,8 @@ def simplify_op(op: GalileanBoost, /, **kwargs: Any) -> GalileanBoost | Identity
 
     """
     # Check if the velocity is zero.
-    if jnp.allclose(convert(op.velocity, u.Quantity).value, jnp.zeros((3,)), **kwargs):
+    value = convert(op.velocity, u.Quantity).value
+    if jnp.allclose(value, jnp.zeros_like(value), **kwargs):
         return Identity()
     return op
 
-- 
2.43.0


From 7960f32b077f97faca8146b228b92004713dc532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:40 +0000
Subject: [PATCH 37/42] fix: products, quotients and tangent of Angles are
 Quantities

---
 .../_src/angles/register_primitives.py        | 76 +++++++++++++++++++
 1 file changed, 76 insertions(+)

diff --git a/src/coordinax/_src/angles/register_primitives.py b/src/coordinax/_src/angles/register_primitives.py
index 5cf5440..a42c97e 100644
--- a/src/coordinax/_src/angles/register_primitives.py
+++ b/src/coordinax/_src/angles/register_primitives.py
@@ -72,6 +72,42 @@ def _cos_p(x: AbstractAngle) -> u.Quantity:
 # ==============================================================================
 
 
+@register(lax.div_p)
+def _div_p_aa(x: AbstractAngle, y: AbstractAngle) -> u.Quantity:
+    """Division of two Angles.
+
+    Examples
+    --------
+    >>> from coordinax.angle import Angle
+
+    >>> q1 = Angle(1, "deg")
+    >>> q2 = Angle(2, "deg")
+    >>> q1 / q2
+    Quantity['dimensionless'](Array(0.5, dtype=float32, ...), unit='')
+
+    """
+    return u.Quantity(x.value, x.unit) / u.Quantity(y.value, y.unit)
+
+
+@register(lax.div_p)
+def _div_p_va(x: ArrayLike, y: AbstractAngle) -> u.Quantity:
+    """Division of an array by an Angle.
+
+    Examples
+    --------
+    >>> from coordinax.angle import Angle
+
+    >>> q = Angle(2, "deg")
+    >>> (1 / q).unit
+    Unit("1 / deg")
+
+    """
+    return x / u.Quantity(y.value, y.unit)
+
+
+# ==============================================================================
+
+
 @register(lax.dot_general_p)
 def _dot_general_aa(
     lhs: AbstractAngle, rhs: AbstractAngle, /, **kwargs: Any
@@ -120,6 +156,26 @@ def _integer_pow_p_a(x: AbstractAngle, *, y: Any) -> u.Quantity:
 # ==============================================================================
 
 
+@register(lax.mul_p)
+def _mul_p_aa(x: AbstractAngle, y: AbstractAngle) -> u.Quantity:
+    """Multiplication of two Angles.
+
+    Examples
+    --------
+    >>> from coordinax.angle import Angle
+
+    >>> q1 = Angle(2, "deg")
+    >>> q2 = Angle(3, "deg")
+    >>> q1 * q2
+    Quantity['solid angle'](Array(6, dtype=int32, ...), unit='deg2')
+
+    """
+    return u.Quantity(x.value, x.unit) * u.Quantity(y.value, y.unit)
+
+
+# ==============================================================================
+
+
 @register(lax.pow_p)
 def _pow_p_a(x: AbstractAngle, y: ArrayLike) -> u.Quantity:
     """Power of an Angle by redispatching to Quantity.
@@ -177,3 +233,23 @@ def _sqrt_p_a(x: AbstractAngle) -> u.Quantity:
     """
     # Promote to something that supports sqrt units.
     return u.Quantity(lax.sqrt(x.value), unit=x.unit ** (1 / 2))
+
+
+# ==============================================================================
+
+
+@register(lax.tan_p)
+def _tan_p_a(x: AbstractAngle) -> u.Quantity:
+    """Tangent of an Angle.
+
+    Examples
+    --------
+    >>> import quaxed.numpy as jnp
+    >>> from coordinax.angle import Angle
+
+    >>> q = Angle(45, "deg")
+    >>> jnp.tan(q)
+    Quantity['dimensionless'](Array(1., dtype=float32, ...), unit='')
+
+    """
+    return u.Quantity(qlax.tan(u.ustrip(radian, x)), unit=one)
-- 
2.43.0


From 4023b8370e1aafc83450b5e1e84d035500691bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:40 +0000
Subject: [PATCH 38/42] fix: products and quotients of Distances are Quantities

---
 .../_src/distances/register_primitives.py     | 56 +++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/src/coordinax/_src/distances/register_primitives.py b/src/coordinax/_src/distances/register_primitives.py
index 4609db7..91bb30e 100644
--- a/src/coordinax/_src/distances/register_primitives.py
+++ b/src/coordinax/_src/distances/register_primitives.py
@@ -51,6 +51,42 @@ def _cbrt_p_d(x: AbstractDistance) -> u.Quantity:
 # ==============================================================================
 
 
+@register(lax.div_p)
+def _div_p_dd(x: AbstractDistance, y: AbstractDistance) -> u.Quantity:
+    """Division of two Distances.
+
+    Examples
+    --------
+    >>> from coordinax.distance import Distance
+
+    >>> q1 = Distance(1, "pc")
+    >>> q2 = Distance(2, "pc")
+    >>> q1 / q2
+    Quantity['dimensionless'](Array(0.5, dtype=float32, ...), unit='')
+
+    """
+    return u.Quantity(x.value, x.unit) / u.Quantity(y.value, y.unit)
+
+
+@register(lax.div_p)
+def _div_p_vd(x: ArrayLike, y: AbstractDistance) -> u.Quantity:
+    """Division of an array by a Distance.
+
+    Examples
+    --------
+    >>> from coordinax.distance import Distance
+
+    >>> q = Distance(2, "pc")
+    >>> (1 / q).unit
+    Unit("1 / pc")
+
+    """
+    return x / u.Quantity(y.value, y.unit)
+
+
+# ==============================================================================
+
+
 @register(lax.dot_general_p)
 def _dot_general_dd(
     lhs: AbstractDistance, rhs: AbstractDistance, /, **kwargs: Any
@@ -112,6 +148,26 @@ def _integer_pow_p_d(x: AbstractDistance, *, y: Any) -> u.Quantity:
 # ==============================================================================
 
 
+@register(lax.mul_p)
+def _mul_p_dd(x: AbstractDistance, y: AbstractDistance) -> u.Quantity:
+    """Multiplication of two Distances.
+
+    Examples
+    --------
+    >>> from coordinax.distance import Distance
+
+    >>> q1 = Distance(2, "m")
+    >>> q2 = Distance(3, "m")
+    >>> q1 * q2
+    Quantity['area'](Array(6, dtype=int32, ...), unit='m2')
+
+    """
+    return u.Quantity(x.value, x.unit) * u.Quantity(y.value, y.unit)
+
+
+# ==============================================================================
+
+
 @register(lax.pow_p)
 def _pow_p_d(x: AbstractDistance, y: ArrayLike) -> u.Quantity:
     """Power of a Distance by redispatching to Quantity.
-- 
2.43.0


From b083ca2c175743821dd7eb388af105f7e023375b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:40 +0000
Subject: [PATCH 39/42] fix: a distance and an angle combine as Quantities

---
 src/coordinax/_src/distances/compat.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/coordinax/_src/distances/compat.py b/src/coordinax/_src/distances/compat.py
index 64b3299..f5a6ed8 100644
--- a/src/coordinax/_src/distances/compat.py
+++ b/src/coordinax/_src/distances/compat.py
@@ -8,6 +8,7 @@ from unxt.quantity import AbstractQuantity, Quantity
 
 from .base import AbstractDistance
 from .core import Distance, DistanceModulus, Parallax
+from coordinax._src.angles import AbstractAngle
 
 # Add a rule that when a AbstractDistance interacts with a Quantity, the
 # distance degrades to a Quantity. This is necessary for many operations, e.g.
@@ -15,6 +16,10 @@ from .core import Distance, DistanceModulus, Parallax
 # are not those of a distance.
 add_promotion_rule(AbstractDistance, Quantity, Quantity)
 
+# Likewise when a AbstractDistance interacts with an AbstractAngle, e.g. for the
+# arc length `distance * angle`, both degrade to a Quantity.
+add_promotion_rule(AbstractDistance, AbstractAngle, Quantity)
+
 #####################################################################
 # Conversion
 
-- 
2.43.0


From 65238d26d06ae485ea3b30d8f5985549dbd3a484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:21 +0000
Subject: [PATCH 40/42] fix: accept a negative distance modulus as a radial
 distance

---
 src/coordinax/_src/vectors/checks.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/checks.py b/src/coordinax/_src/vectors/checks.py
index 16e51fa..b73c322 100644
--- a/src/coordinax/_src/vectors/checks.py
+++ b/src/coordinax/_src/vectors/checks.py
@@ -11,6 +11,7 @@ import unxt as u
 from unxt.quantity import AbstractQuantity
 
 from coordinax._src.angles import Angle, BatchableAngleQ
+from coordinax._src.distances import AbstractDistance
 
 _0d = Angle(0, "rad")
 _pid = Angle(180, "deg")
@@ -37,7 +38,11 @@ def check_r_non_negative(r: AbstractQuantity) -> AbstractQuantity:
     ... except Exception: pass
 
     """
-    return check_non_negative(r, name="radial distance r")
+    # The check is of the distance itself: a distance modulus can be negative.
+    distance = r.distance if isinstance(r, AbstractDistance) else r
+    return eqx.error_if(
+        r, xp.any(distance < 0), "The input radial distance r must be non-negative."
+    )
 
 
 def check_polar_range(
-- 
2.43.0


From fca89e1040fb9392f25ea0133a45b6a39d979485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:21 +0000
Subject: [PATCH 41/42] fix: do not reflect positions with a negative distance
 modulus

---
 src/coordinax/_src/vectors/d3/lonlatspherical.py | 6 +++---
 src/coordinax/_src/vectors/d3/mathspherical.py   | 6 +++---
 src/coordinax/_src/vectors/d3/spherical.py       | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/coordinax/_src/vectors/d3/lonlatspherical.py b/src/coordinax/_src/vectors/d3/lonlatspherical.py
index c67ac9d..92e326f 100644
--- a/src/coordinax/_src/vectors/d3/lonlatspherical.py
+++ b/src/coordinax/_src/vectors/d3/lonlatspherical.py
@@ -224,9 +224,9 @@ def from_(
     distance = fields["distance"].metadata["converter"](distance)
     lon, lat, distance = jnp.broadcast_arrays(lon, lat, distance)
 
-    # 2) handle negative distances
-    distance_pred = distance < jnp.zeros_like(distance)
-    distance = qlax.select(distance_pred, -distance, distance)
+    # 2) handle negative distances (a distance modulus can itself be negative)
+    distance_pred = distance.distance < jnp.zeros_like(distance.distance)
+    distance = qlax.select(distance_pred, jnp.abs(distance), distance)
     lon = qlax.select(distance_pred, lon + _180d, lon)
     lat = qlax.select(distance_pred, -lat, lat)
 
diff --git a/src/coordinax/_src/vectors/d3/mathspherical.py b/src/coordinax/_src/vectors/d3/mathspherical.py
index 38e6eea..08a2d85 100644
--- a/src/coordinax/_src/vectors/d3/mathspherical.py
+++ b/src/coordinax/_src/vectors/d3/mathspherical.py
@@ -168,9 +168,9 @@ def from_(
     phi = fields["phi"].metadata["converter"](phi)
     r, theta, phi = jnp.broadcast_arrays(r, theta, phi)
 
-    # 2) handle negative distances
-    r_pred = r < jnp.zeros_like(r)
-    r = qlax.select(r_pred, -r, r)
+    # 2) handle negative distances (a distance modulus can itself be negative)
+    r_pred = r.distance < jnp.zeros_like(r.distance)
+    r = qlax.select(r_pred, jnp.abs(r), r)
     theta = qlax.select(r_pred, theta + _180d, theta)
     phi = qlax.select(r_pred, _180d - phi, phi)
 
diff --git a/src/coordinax/_src/vectors/d3/spherical.py b/src/coordinax/_src/vectors/d3/spherical.py
index 63ea652..f60e286 100644
--- a/src/coordinax/_src/vectors/d3/spherical.py
+++ b/src/coordinax/_src/vectors/d3/spherical.py
@@ -146,9 +146,9 @@ def from_(
     phi = fields["phi"].metadata["converter"](phi)
     r, theta, phi = jnp.broadcast_arrays(r, theta, phi)
 
-    # 2) handle negative distances
-    r_pred = r < jnp.zeros_like(r)
-    r = qlax.select(r_pred, -r, r)
+    # 2) handle negative distances (a distance modulus can itself be negative)
+    r_pred = r.distance < jnp.zeros_like(r.distance)
+    r = qlax.select(r_pred, jnp.abs(r), r)
     phi = qlax.select(r_pred, phi + _180d, phi)
     theta = qlax.select(r_pred, _180d - theta, theta)
 
-- 
2.43.0


From 4428935712734c9941ce144f1242f5c0f7e31e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:21 +0000
Subject: [PATCH 42/42] fix: the norm of a spherical position is a length

---
 src/coordinax/_src/vectors/d3/lonlatspherical.py | 2 +-
 src/coordinax/_src/vectors/d3/mathspherical.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/d3/lonlatspherical.py b/src/coordinax/_src/vectors/d3/lonlatspherical.py
index 92e326f..d7c80cc 100644
--- a/src/coordinax/_src/vectors/d3/lonlatspherical.py
+++ b/src/coordinax/_src/vectors/d3/lonlatspherical.py
@@ -143,7 +143,7 @@ class LonLatSphericalPos(AbstractSphericalPos):
         Distance(Array(3., dtype=float32), unit='kpc')
 
         """
-        return self.distance
+        return self.distance.distance
 
 
 @LonLatSphericalPos.from_._f.register  # type: ignore[attr-defined, misc]  # noqa: SLF001
diff --git a/src/coordinax/_src/vectors/d3/mathspherical.py b/src/coordinax/_src/vectors/d3/mathspherical.py
index 08a2d85..dff7018 100644
--- a/src/coordinax/_src/vectors/d3/mathspherical.py
+++ b/src/coordinax/_src/vectors/d3/mathspherical.py
@@ -96,7 +96,7 @@ class MathSphericalPos(AbstractSphericalPos):
         Distance(Array(3., dtype=float32), unit='kpc')
 
         """
-        return self.r
+        return self.r.distance
 
 
 @MathSphericalPos.from_._f.register  # type: ignore[attr-defined, misc]  # noqa: SLF001
-- 
2.43.0

