"""Independent reference geometry, in NumPy float64.

Nothing here uses coordinax: lengths are plain floats in one length unit, angles are in
radians.  Components are dicts of arrays.
"""

from __future__ import annotations

import numpy as np

PI = np.pi

# component -> kind.  L: length, A: azimuth, P: polar angle, B: latitude, L2: area
COMPS = {
    "cart3": {"x": "L", "y": "L", "z": "L"},
    "cyl": {"rho": "L", "phi": "A", "z": "L"},
    "sph": {"r": "L", "theta": "P", "phi": "A"},
    "math": {"r": "L", "theta": "A", "phi": "P"},
    "lonlat": {"lon": "A", "lat": "B", "distance": "L"},
    "prolate": {"mu": "L2", "nu": "L2", "phi": "A"},
    "cart2": {"x": "L", "y": "L"},
    "polar": {"r": "L", "phi": "A"},
    "cart1": {"x": "L"},
    "radial": {"r": "L"},
}
DIM = {"cart3": 3, "cyl": 3, "sph": 3, "math": 3, "lonlat": 3, "prolate": 3,
       "cart2": 2, "polar": 2, "cart1": 1, "radial": 1}


def azim(y, x):
    return np.mod(np.arctan2(y, x), 2 * PI)


def to_cart(rep: str, c: dict, Delta: float | None = None) -> np.ndarray:
    """Components -> Cartesian array (..., ndim)."""
    s, co = np.sin, np.cos
    if rep in ("cart3", "cart2", "cart1"):
        out = [c[k] for k in "xyz"[: DIM[rep]]]
    elif rep == "cyl":
        out = [c["rho"] * co(c["phi"]), c["rho"] * s(c["phi"]), c["z"]]
    elif rep == "sph":
        out = [c["r"] * s(c["theta"]) * co(c["phi"]),
               c["r"] * s(c["theta"]) * s(c["phi"]), c["r"] * co(c["theta"])]
    elif rep == "math":
        out = [c["r"] * s(c["phi"]) * co(c["theta"]),
               c["r"] * s(c["phi"]) * s(c["theta"]), c["r"] * co(c["phi"])]
    elif rep == "lonlat":
        out = [c["distance"] * co(c["lat"]) * co(c["lon"]),
               c["distance"] * co(c["lat"]) * s(c["lon"]), c["distance"] * s(c["lat"])]
    elif rep == "prolate":
        d2 = Delta**2
        nd = np.abs(c["nu"]) / d2
        R = np.sqrt(np.maximum((c["mu"] - d2) * (1 - nd), 0))
        z = np.sqrt(np.maximum(c["mu"] * nd, 0)) * np.sign(c["nu"])
        out = [R * co(c["phi"]), R * s(c["phi"]), z]
    elif rep == "polar":
        out = [c["r"] * co(c["phi"]), c["r"] * s(c["phi"])]
    elif rep == "radial":
        out = [c["r"]]
    else:
        raise KeyError(rep)
    return np.stack(np.broadcast_arrays(*out), axis=-1)


def from_cart(rep: str, p: np.ndarray, Delta: float | None = None) -> dict:
    p = np.asarray(p, dtype=float)
    if rep == "cart3":
        return {"x": p[..., 0], "y": p[..., 1], "z": p[..., 2]}
    if rep == "cart2":
        return {"x": p[..., 0], "y": p[..., 1]}
    if rep == "cart1":
        return {"x": p[..., 0]}
    if rep == "radial":
        return {"r": p[..., 0]}
    if rep == "polar":
        return {"r": np.hypot(p[..., 0], p[..., 1]), "phi": azim(p[..., 1], p[..., 0])}
    x, y, z = p[..., 0], p[..., 1], p[..., 2]
    rho = np.hypot(x, y)
    phi = azim(y, x)
    r = np.sqrt(x * x + y * y + z * z)
    if rep == "cyl":
        return {"rho": rho, "phi": phi, "z": z}
    if rep == "sph":
        return {"r": r, "theta": np.arctan2(rho, z), "phi": phi}
    if rep == "math":
        return {"r": r, "theta": phi, "phi": np.arctan2(rho, z)}
    if rep == "lonlat":
        return {"lon": phi, "lat": np.arctan2(z, rho), "distance": r}
    if rep == "prolate":
        d = Delta
        # mu, |nu| are the roots of t^2 - (rho^2+z^2+d^2) t + z^2 d^2 = 0; use the
        # focal distances: sqrt(mu) = (r1 + r2)/2, sqrt|nu| = |r1 - r2|/2
        r1 = np.hypot(rho, z + d)
        r2 = np.hypot(rho, z - d)
        mu = ((r1 + r2) / 2) ** 2
        nu = ((r1 - r2) / 2) ** 2 * np.sign(z)
        return {"mu": np.maximum(mu, d * d), "nu": np.clip(nu, -d * d, d * d), "phi": phi}
    raise KeyError(rep)


def jac_to_cart(rep: str, c: dict, Delta: float | None = None) -> np.ndarray:
    """d(cartesian)/d(components), shape (..., ndim, ndim); analytic."""
    s, co = np.sin, np.cos
    z0 = None

    def mat(rows):
        arrs = [np.asarray(a, dtype=float) for row in rows for a in row]
        shp = np.broadcast_shapes(*(a.shape for a in arrs))
        n = len(rows)
        out = np.zeros(shp + (n, n))
        for i, row in enumerate(rows):
            for j, a in enumerate(row):
                out[..., i, j] = a
        return out

    del z0
    if rep in ("cart3", "cart2", "cart1", "radial"):
        n = DIM[rep]
        base = np.asarray(next(iter(c.values())), dtype=float)
        return np.broadcast_to(np.eye(n), base.shape + (n, n)).copy()
    if rep == "polar":
        r, f = c["r"], c["phi"]
        return mat([[co(f), -r * s(f)], [s(f), r * co(f)]])
    if rep == "cyl":
        r, f = c["rho"], c["phi"]
        return mat([[co(f), -r * s(f), 0], [s(f), r * co(f), 0], [0, 0, 1]])
    if rep in ("sph", "math"):
        r = c["r"]
        t, f = (c["theta"], c["phi"]) if rep == "sph" else (c["phi"], c["theta"])
        dr = [s(t) * co(f), s(t) * s(f), co(t)]
        dt = [r * co(t) * co(f), r * co(t) * s(f), -r * s(t)]
        df = [-r * s(t) * s(f), r * s(t) * co(f), 0 * r]
        cols = [dr, dt, df] if rep == "sph" else [dr, df, dt]
        return mat([[cols[j][i] for j in range(3)] for i in range(3)])
    if rep == "lonlat":
        r, l, b = c["distance"], c["lon"], c["lat"]
        dl = [-r * co(b) * s(l), r * co(b) * co(l), 0 * r]
        db = [-r * s(b) * co(l), -r * s(b) * s(l), r * co(b)]
        dr = [co(b) * co(l), co(b) * s(l), s(b)]
        cols = [dl, db, dr]
        return mat([[cols[j][i] for j in range(3)] for i in range(3)])
    if rep == "prolate":
        d2 = Delta**2
        mu, nu, f = c["mu"], c["nu"], c["phi"]
        an, sg = np.abs(nu), np.sign(nu)
        R = np.sqrt((mu - d2) * (1 - an / d2))
        z = np.sqrt(mu * an / d2) * sg
        Rm = (1 - an / d2) / (2 * R)
        Rn = -(mu - d2) * sg / d2 / (2 * R)
        zm = (an / d2) / (2 * np.abs(z)) * sg
        zn = (mu / d2) / (2 * np.abs(z))
        return mat([[Rm * co(f), Rn * co(f), -R * s(f)],
                    [Rm * s(f), Rn * s(f), R * co(f)],
                    [zm, zn, 0 * R]])
    raise KeyError(rep)


def vel_to_cart(rep: str, c: dict, v: np.ndarray, Delta=None) -> np.ndarray:
    return np.einsum("...ij,...j->...i", jac_to_cart(rep, c, Delta), v)


def vel_from_cart(rep: str, c: dict, vc: np.ndarray, Delta=None) -> np.ndarray:
    return np.linalg.solve(jac_to_cart(rep, c, Delta), vc[..., None])[..., 0]


def angdiff(a, b):
    """Smallest signed difference between angles, radians."""
    return np.mod(np.asarray(a) - np.asarray(b) + PI, 2 * PI) - PI


def rot_matrix(axis: str, ang: float) -> np.ndarray:
    c, s = np.cos(ang), np.sin(ang)
    return {
        "x": np.array([[1, 0, 0], [0, c, -s], [0, s, c]]),
        "y": np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]]),
        "z": np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]]),
    }[axis]
