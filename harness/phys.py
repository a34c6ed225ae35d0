"""Physical content of any coordinax/unxt result, free of units, as nested plain data."""

from __future__ import annotations

import astropy.units as apu
import numpy as np

import coordinax as cx
from unxt.quantity import AbstractQuantity

import ref
from gens import POS, xyz_of
from core import Violation

AZIMUTH = {("CylindricalPos", "phi"), ("SphericalPos", "phi"), ("MathSphericalPos", "theta"),
           ("LonLatSphericalPos", "lon"), ("LonCosLatSphericalPos", "lon"), ("ProlateSpheroidalPos", "phi"),
           ("PolarPos", "phi"), ("TwoSpherePos", "phi")}
SYS = [apu.kpc, apu.Myr, apu.rad]


def qval(q) -> tuple[np.ndarray, str]:
    """Value in kpc, Myr, rad and the decomposed unit."""
    un = apu.Unit(str(q.unit)) if not isinstance(q.unit, apu.UnitBase) else q.unit
    if isinstance(un, (apu.MagUnit,)) or str(un) in ("mag",):
        return np.asarray(q.value), "mag"
    base = un.decompose(bases=SYS + [apu.Msun, apu.A, apu.K, apu.cd, apu.mol])
    v = np.asarray(q.value)
    v = v.astype(complex if np.iscomplexobj(v) else float)
    dims = " ".join(sorted(f"{b}^{float(e):g}" for b, e in zip(base.bases, base.powers)))
    return v * base.scale, dims


def phys(x, cart=True):
    """Nested (name, value) description of a result; positions are given by their points."""
    for rep, cls in POS.items() if cart else ():
        if type(x) is cls:
            return {type(x).__name__: {"xyz": (xyz_of(x, "kpc", rep), "kpc")}}
    if isinstance(x, cx.Space):
        return {"Space": {k: phys(v, cart) for k, v in sorted(x.items())}}
    if isinstance(x, cx.vecs.AbstractVector):
        out = {}
        for k in x.__dataclass_fields__:
            out[k] = phys(getattr(x, k), cart)
        return {type(x).__name__: out}
    if isinstance(x, AbstractQuantity):
        return qval(x)
    if isinstance(x, (tuple, list)):
        return {str(i): phys(v, cart) for i, v in enumerate(x)}
    return np.asarray(x), ""


def flat(p, path=()):
    if isinstance(p, dict):
        for k, v in p.items():
            yield from flat(v, (*path, k))
    else:
        yield path, p[0], p[1]


def same(got, want, tol: float, what: str, floor: float = 1.0, cart: bool = True) -> float:
    """Raise unless both results are the same physical thing; returns the largest value."""
    g, w = list(flat(phys(got, cart))), list(flat(phys(want, cart)))
    if [x[0] for x in g] != [x[0] for x in w]:
        raise Violation(f"{what}: structure {[x[0] for x in g]} != {[x[0] for x in w]}")
    big = 0.0
    for (path, a, ua), (_, b, ub) in zip(g, w):
        if ua != ub:
            raise Violation(f"{what}: {path} has dimensions {ua}, expected {ub}")
        if a.shape != b.shape:
            raise Violation(f"{what}: {path} has shape {a.shape}, expected {b.shape}")
        if a.size == 0:
            continue
        if np.any(np.isnan(a) != np.isnan(b)):
            raise Violation(f"{what}: {path} NaN mismatch {a.tolist()} {b.tolist()}")
        d = a - b
        if len(path) > 1 and (path[-2], path[-1]) in AZIMUTH:
            d = ref.angdiff(a, b)
        s = max(floor, float(np.nanmax(np.abs(b))) if b.size else floor)
        big = max(big, float(np.nanmax(np.abs(b))))
        eq = a == b
        if not np.all((np.abs(d) <= tol * s) | eq | np.isnan(a)):
            raise Violation(f"{what}: {'.'.join(path)} is {a.tolist()}, expected {b.tolist()} (tolerance {tol * s:g})")
    return big
