"""Hypothesis strategies (JSON-serialisable cases) and builders of coordinax objects."""

from __future__ import annotations

import math
import os
import sys
import types

if not os.path.exists(os.path.join(os.environ.get("COORDINAX_REPO", "/repo"), "src/coordinax/_version.py")):
    _m = types.ModuleType("coordinax._version")  # generated by the build, git-ignored
    _m.version = _m.__version__ = "0"
    _m.version_tuple = _m.__version_tuple__ = (0,)
    sys.modules["coordinax._version"] = _m

import astropy.units as apu
import numpy as np
from hypothesis import strategies as st

import coordinax as cx
import unxt as u
from coordinax.angle import Angle
from coordinax.distance import Distance

import ref
from core import Skip, Violation, check  # noqa: F401

Q = u.Quantity

POS = {
    "cart3": cx.CartesianPos3D, "cyl": cx.vecs.CylindricalPos, "sph": cx.SphericalPos,
    "math": cx.vecs.MathSphericalPos, "lonlat": cx.vecs.LonLatSphericalPos,
    "prolate": cx.vecs.ProlateSpheroidalPos,
    "cart2": cx.vecs.CartesianPos2D, "polar": cx.vecs.PolarPos,
    "cart1": cx.vecs.CartesianPos1D, "radial": cx.vecs.RadialPos,
}
VEL = {
    "cart3": cx.CartesianVel3D, "cyl": cx.vecs.CylindricalVel, "sph": cx.SphericalVel,
    "math": cx.vecs.MathSphericalVel, "lonlat": cx.vecs.LonLatSphericalVel,
    "prolate": cx.vecs.ProlateSpheroidalVel,
    "cart2": cx.vecs.CartesianVel2D, "polar": cx.vecs.PolarVel,
    "cart1": cx.vecs.CartesianVel1D, "radial": cx.vecs.RadialVel,
}
ACC = {
    "cart3": cx.vecs.CartesianAcc3D, "cyl": cx.vecs.CylindricalAcc, "sph": cx.vecs.SphericalAcc,
    "math": cx.vecs.MathSphericalAcc, "lonlat": cx.vecs.LonLatSphericalAcc,
    "prolate": cx.vecs.ProlateSpheroidalAcc,
    "cart2": cx.vecs.CartesianAcc2D, "polar": cx.vecs.PolarAcc,
    "cart1": cx.vecs.CartesianAcc1D, "radial": cx.vecs.RadialAcc,
}
REPS3 = ["cart3", "cyl", "sph", "math", "lonlat"]
REPS3P = REPS3 + ["prolate"]
REPS2 = ["cart2", "polar"]
REPS1 = ["cart1", "radial"]
CARTOF = {1: "cart1", 2: "cart2", 3: "cart3"}

LUNITS = ["kpc", "km", "pc", "m", "AU"]
AUNITS = ["rad", "deg", "arcmin"]
TUNITS = ["Myr", "s", "yr"]

# ---------------------------------------------------------------- numbers

SHAPES = [[], [3], [2, 3]]
SMALL_SHAPES = [[], [3], [2, 3]]


def size(shape) -> int:
    return int(np.prod(shape)) if shape else 1


def fl(lo: float, hi: float):
    """Floats with at most 4 decimals: easy to read after shrinking."""
    k = 10_000
    return st.integers(int(math.ceil(lo * k)), int(math.floor(hi * k))).map(lambda i: i / k)


def coord():
    """A Cartesian coordinate of order one, with special values mixed in."""
    return st.one_of(
        fl(-9, 9), fl(-9, 9), fl(-9, 9),
        st.sampled_from([0.0, 1.0, -1.0, 2.0, -0.5, 1e-3, -1e-3]),
    )


def generic_coord():
    """Away from zero."""
    return st.one_of(fl(0.3, 9), fl(-9, -0.3))


@st.composite
def arr(draw, shape, elem):
    n = size(shape)
    return draw(st.lists(elem, min_size=n, max_size=n))


@st.composite
def points(draw, shape, dim, elem=None):
    """Flat list of n points, each a list of dim floats."""
    e = coord() if elem is None else elem
    n = size(shape)
    return draw(st.lists(st.lists(e, min_size=dim, max_size=dim), min_size=n, max_size=n))


def A(flat, shape, dim=None) -> np.ndarray:
    a = np.asarray(flat, dtype=float)
    return a.reshape(tuple(shape) + ((dim,) if dim else ()))


# ---------------------------------------------------------------- units


def usc(frm: str, to: str) -> float:
    return apu.Unit(frm).to(apu.Unit(to))


def val(q, unit: str) -> np.ndarray:
    """The value of a unxt quantity in `unit`, by way of Astropy's unit conversion."""
    if hasattr(q, "distance") and type(q).__name__ in ("Parallax", "DistanceModulus"):
        q = q.distance
    v = np.asarray(q.value, dtype=float)
    un = apu.Unit(str(q.unit)) if not isinstance(q.unit, apu.UnitBase) else q.unit
    if un == apu.Unit(unit):
        return v
    return v * un.to(apu.Unit(unit))


def lunits():
    """float32 squares of kpc-sized lengths in metres overflow."""
    return ["kpc", "pc"] if os.environ.get("VERIF_MODE") == "f32" else LUNITS


def kind_unit(kind: str, lu: str) -> str:
    return {"L": lu, "A": "rad", "P": "rad", "B": "rad", "L2": f"{lu}2"}[kind]


def mk_comp(x: np.ndarray, kind: str, lu: str, au: str):
    """Quantity for one component; x is in `lu`/radians."""
    if kind == "L":
        return Q(x, lu)
    if kind == "L2":
        return Q(x, f"{lu}2")
    v = x if au == "rad" else x * usc("rad", au)
    return Q(v, au)


def mk_pos(rep: str, comps: dict, lu: str = "kpc", au: str = "rad", Delta: float | None = None):
    """Build a position of representation `rep` from reference components."""
    kw = {k: mk_comp(np.asarray(comps[k]), kd, lu, au) for k, kd in ref.COMPS[rep].items()}
    if rep == "prolate":
        kw["Delta"] = Q(float(Delta), lu)
    return POS[rep](**kw)


def pos_from_xyz(rep: str, xyz: np.ndarray, lu="kpc", au="rad", Delta=None):
    c = ref.from_cart(rep, xyz, Delta)
    if rep == "lonlat" and au != "rad":  # keep 90 deg from rounding up
        lim = 90 * usc("deg", au)
        c = dict(c)
        c["lat"] = np.clip(c["lat"] * usc("rad", au), -lim, lim) / usc("rad", au)
    return mk_pos(rep, c, lu, au, Delta)


def comps_of(vec, rep: str, lu: str) -> dict:
    """Read the components of a position into reference components."""
    return {k: val(getattr(vec, k), kind_unit(kd, lu)) for k, kd in ref.COMPS[rep].items()}


def rep_of(vec) -> str:
    for k, c in POS.items():
        if type(vec) is c:
            return k
    raise Violation(f"unexpected vector class {type(vec)}")


def xyz_of(vec, lu: str, rep: str | None = None) -> np.ndarray:
    """Cartesian coordinates of a position, by the reference geometry."""
    rep = rep or rep_of(vec)
    D = float(val(vec.Delta, lu)) if rep == "prolate" else None
    return ref.to_cart(rep, comps_of(vec, rep, lu), D)


# rates: unit of d_<comp> for reference kinds
def rate_unit(kind: str, lu: str, tu: str, order: int = 1) -> str:
    t = tu if order == 1 else f"{tu}2"
    return {"L": f"{lu} / {t}", "A": f"rad / {t}", "P": f"rad / {t}", "B": f"rad / {t}",
            "L2": f"{lu}2 / {t}"}[kind]


def mk_rate(rep: str, v: np.ndarray, lu="kpc", tu="Myr", order=1):
    """Velocity (order 1) or acceleration (order 2) from reference rates (..., n)."""
    cls, pre = (VEL, "d_") if order == 1 else (ACC, "d2_")
    kw = {pre + k: Q(v[..., i], rate_unit(kd, lu, tu, order))
          for i, (k, kd) in enumerate(ref.COMPS[rep].items())}
    return cls[rep](**kw)


def rate_of(vec, rep: str, lu="kpc", tu="Myr", order=1) -> np.ndarray:
    pre = "d_" if order == 1 else "d2_"
    vals = [val(getattr(vec, pre + k), rate_unit(kd, lu, tu, order))
            for k, kd in ref.COMPS[rep].items()]
    return np.stack(np.broadcast_arrays(*vals), axis=-1)


# ---------------------------------------------------------------- comparison


def close(got, want, atol: float, what: str = "", rtol: float = 0.0):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        raise Violation(f"{what}: shape {got.shape} != {want.shape}")
    with np.errstate(all="ignore"):
        bad = ~(np.abs(got - want) <= atol + rtol * np.abs(want))
        bad &= ~((got == want))
    if np.any(bad):
        i = tuple(int(k[0]) for k in np.nonzero(bad)) if got.ndim else ()
        raise Violation(f"{what}: got {got[i]!r}, expected {want[i]!r} (tolerance {atol:g}"
                        f"+{rtol:g}*|x|) at {i}; got={got.tolist()} expected={want.tolist()}")


def close_ang(got, want, atol: float, what: str = ""):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        raise Violation(f"{what}: shape {got.shape} != {want.shape}")
    d = np.abs(ref.angdiff(got, want))
    if not np.all(d <= atol):
        raise Violation(f"{what}: got {got.tolist()}, expected {want.tolist()} (mod 2pi)")


def scale_of(*arrs) -> float:
    m = 1e-30
    for a in arrs:
        a = np.asarray(a, dtype=float)
        if a.size:
            m = max(m, float(np.nanmax(np.abs(a))))
    return m
