"""C24: exchange with Astropy."""

import astropy.coordinates as apyc
import jax
from plum import convert

import coordinax.frames as cxf
import coordinax.ops as O
from coordinax.distance import DistanceModulus, Parallax

from gens import *
from core import facet
from props.c05 import regular
from props.c21 import coslat_vel

RULE = ("A case is a position or velocity of a supported 3-D class (a unit per component, scalar or batched) sent to Astropy and "
        "back, an Astropy representation or differential (built by Astropy, possibly transformed, converted, wrapped or "
        "carrying differentials) read by coordinax, an Astropy quantity read as a vector, operator, angle or distance, or a "
        "frame with any parameters. Non-trivial: no coordinate is zero.")
ASSUMPTIONS = ["Astropy's own to_cartesian / represent_as, cross-checked with a NumPy formula, is the oracle",
               "an Astropy class is matched with the coordinax class of the same components; other requests are outside of the domain"]

REP = {"cart3": apyc.CartesianRepresentation, "cyl": apyc.CylindricalRepresentation, "sph": apyc.PhysicsSphericalRepresentation,
       "lonlat": apyc.SphericalRepresentation}
DIF = {"cart3": apyc.CartesianDifferential, "cyl": apyc.CylindricalDifferential, "sph": apyc.PhysicsSphericalDifferential,
       "lonlat": apyc.SphericalDifferential, "coslat": apyc.SphericalCosLatDifferential}
KEYS = list(REP)
LON_COS = cx.vecs.LonCosLatSphericalVel
LU, AU = ["kpc", "pc", "km", "AU"], ["rad", "deg", "arcmin", "hourangle"]
F32_LU = ["kpc", "pc"]


def lus():
    return F32_LU if os.environ.get("VERIF_MODE") == "f32" else LU


def units3():
    return st.fixed_dictionaries({"l": st.lists(st.sampled_from(lus()), min_size=3, max_size=3), "a": st.lists(st.sampled_from(AU), min_size=3, max_size=3),
                                  "t": st.lists(st.sampled_from(["Myr", "yr"]), min_size=3, max_size=3)})


def lim(rep, name, v, un):
    """Rounding must not carry a latitude or polar angle over its end."""
    kd = ref.COMPS[rep][name]
    if kd in "BP":
        e = 90.0 if kd == "B" else 180.0
        return np.clip(v, -e * usc("deg", un) if kd == "B" else 0, e * usc("deg", un))
    return v


def comp_units(rep, un):
    return {k: un["l"][i] if kd == "L" else un["a"][i] for i, (k, kd) in enumerate(ref.COMPS[rep].items())}


def numbers(rep, xyz, un):
    """Components in the units of the case: name -> (values, unit)."""
    c = ref.from_cart(rep, xyz)
    out = {}
    for k, u_ in comp_units(rep, un).items():
        base = "kpc" if ref.COMPS[rep][k] == "L" else "rad"
        out[k] = (lim(rep, k, c[k] * usc(base, u_), u_), u_)
    return out


def same_comps(rep, vec, nums, eps, what):
    """A coordinax position has these components, in these units."""
    for k, (v, un) in nums.items():
        q = getattr(vec, k)
        got = np.asarray(q.value, dtype=float)
        check(got.shape == np.shape(v), f"{what}: {k} has shape {got.shape}, expected {np.shape(v)}")
        check(apu.Unit(str(q.unit)) == apu.Unit(un), f"{what}: {k} in {q.unit}, expected {un}")
        if ref.COMPS[rep][k] == "A":
            close_ang(got * usc(un, "rad"), v * usc(un, "rad"), 10 * eps, f"{what}: {k}")
        else:
            close(got, v, 0.0 if k == "distance" else eps * scale_of(v), f"{what}: {k}", rtol=2 * eps)


@st.composite
def s_pos(draw):
    rep = draw(st.sampled_from(KEYS))
    sh = draw(st.sampled_from(SHAPES))
    return {"rep": rep, "shape": sh, "xyz": draw(st.one_of(points(sh, 3), regular(sh, 3))), "un": draw(units3()), "to": draw(st.sampled_from(KEYS)),
            "base": draw(st.booleans()), "mag": draw(st.sampled_from([1.0, 1e-6, 1e5])), "any": draw(st.sampled_from(REPS3P)), "qi": draw(st.integers(0, 3))}


@facet("C24", "positions", s_pos, quick=330, thorough=6000, modes=("x64", "f32"), f32_frac=0.2, shards=2)
def positions(case, ctx):
    """A position and its Astropy representation denote the same point, and come back unchanged."""
    rep, sh = case["rep"], tuple(case["shape"])
    xyz = A(case["xyz"], sh, 3) * case["mag"]
    nums = numbers(rep, xyz, case["un"])
    x = POS[rep](**{k: Q(v, un) for k, (v, un) in nums.items()})
    eps = ctx.tol(1e-14, 1e-6)
    a = convert(x, apyc.BaseRepresentation if case["base"] or rep == "lonlat" and case["qi"] else REP[rep])
    check(type(a) is REP[rep], f"{rep} becomes {type(a)}")
    check(a.shape == sh, f"{rep}: shape {a.shape} != {sh}")
    sc = scale_of(xyz)
    close(np.moveaxis(a.to_cartesian().xyz.to_value("kpc"), 0, -1), xyz, 10 * eps * sc, f"{rep}: Astropy's Cartesian coordinates")
    for k, (v, un) in nums.items():
        q = getattr(a, k)
        check(q.unit == apu.Unit(un), f"{rep}: {k} in {q.unit}, expected {un}")
    # and back
    for n, f in enumerate((lambda: POS[rep].from_(a), lambda: convert(a, POS[rep]), lambda: cx.vecs.AbstractPos3D.from_(a))):
        y = f()
        check(type(y) is POS[rep], f"{rep} comes back as {type(y)}")
        same_comps(rep, y, nums, eps, f"{rep} back ({n})")
        close(xyz_of(y, "kpc"), xyz, 10 * eps * sc, f"{rep} back ({n})")
    # into another class, with Astropy doing the conversion
    to = case["to"]
    z = POS[to].from_(a)
    check(type(z) is POS[to], f"{rep} read as {to}: {type(z)}")
    close(xyz_of(z, "kpc"), xyz, 10 * eps * sc, f"{rep} read as {to}")
    # any position is an Astropy quantity of Cartesian coordinates
    r = case["any"]
    un = case["un"]["l"][0]
    D = 0.8 * scale_of(case["mag"])
    w = pos_from_xyz(r, xyz * usc("kpc", un), un, "rad", D * usc("kpc", un) if r == "prolate" else None)
    q = convert(w, apu.Quantity)
    check(type(q) is apu.Quantity and q.shape == (*sh, 3), f"{r} as Quantity: {type(q)} {q.shape}")
    tl = 20 * eps if r != "prolate" else ctx.tol(1e-6, 2e-2)
    close(q.to_value("kpc"), xyz, tl * sc, f"{r} as Quantity")
    ctx.nt(bool(np.all(np.abs(xyz) > 1e-3 * case["mag"])))
    ctx.label(f"{rep} {r}")


@st.composite
def s_foreign(draw):
    rep = draw(st.sampled_from(KEYS))
    sh = draw(st.sampled_from(SHAPES))
    return {"rep": rep, "shape": sh, "xyz": draw(st.one_of(points(sh, 3), regular(sh, 3))), "un": draw(units3()), "turns": draw(st.integers(-2, 2)),
            "to": draw(st.sampled_from(KEYS)), "dif": draw(st.booleans()), "spin": draw(fl(-7, 7)), "kind": draw(st.integers(0, 4)), "i": draw(st.integers(0, 2))}


def make_rep(rep, nums, turns=0):
    kw = {k: v * apu.Unit(un) for k, (v, un) in nums.items()}
    for k, kd in ref.COMPS[rep].items():
        if kd == "A":
            kw[k] = kw[k] + turns * 360 * apu.deg
    if rep == "cart3":
        return apyc.CartesianRepresentation(**kw)
    return REP[rep](**kw)


@facet("C24", "foreign positions", s_foreign, quick=450, thorough=5000, modes=("x64", "f32"), f32_frac=0.2, shards=2)
def foreign(case, ctx):
    """Representations made by Astropy are read with the same meaning."""
    rep, to, sh = case["rep"], case["to"], tuple(case["shape"])
    xyz = A(case["xyz"], sh, 3)
    a = make_rep(rep, numbers(rep, xyz, case["un"]), case["turns"])
    kind = case["kind"]
    if case["dif"]:
        v = apyc.CartesianDifferential(*(np.moveaxis(xyz[..., ::-1], -1, 0) * apu.km / apu.s))
        d = v if rep == "cart3" else None
        a = a.with_differentials({"s": d}) if d is not None else a
    want = xyz
    if kind == 1:  # Astropy rotates it
        R = ref.rot_matrix("z", case["spin"])
        a = a.transform(R)
        want = xyz @ R.T
    elif kind == 2 and sh:  # views
        a, want = a[::-1], xyz[::-1]
    elif kind == 3 and len(sh) == 2:
        a, want = a.T, np.swapaxes(xyz, 0, 1)
    elif kind == 4:
        if rep == "lonlat":  # another branch of longitude
            a = apyc.SphericalRepresentation(apyc.Longitude(a.lon, wrap_angle=180 * apu.deg), a.lat, apyc.Distance(a.distance))
        else:
            a, want = -a if rep == "cart3" else a, -xyz if rep == "cart3" else xyz
    assert np.allclose(np.moveaxis(a.to_cartesian().xyz.to_value("kpc"), 0, -1), want, atol=1e-6 * scale_of(xyz))
    eps = ctx.tol(1e-14, 1e-6) * (1 + abs(case["turns"]) * 4)
    ways = [lambda: POS[to].from_(a)]
    if to == rep:
        ways = [lambda: POS[to].from_(a), lambda: convert(a, POS[to]), lambda: cx.vecs.AbstractPos3D.from_(a)]
    y = ways[case["i"] % len(ways)]()
    check(type(y) is POS[to], f"{rep} as {to}: {type(y)}")
    check(y.shape == want.shape[:-1], f"{rep} as {to}: shape {y.shape}")
    close(xyz_of(y, "kpc"), want, 30 * eps * scale_of(xyz), f"Astropy's {rep} as {to}")
    # components taken from Astropy, as a mapping or by name, in any angle class
    m = {k: getattr(a, k) for k in ref.COMPS[rep]}
    z = POS[rep].from_(m) if case["i"] else POS[rep](**m)
    close(xyz_of(z, "kpc"), want, 30 * eps * scale_of(xyz), f"mapping of Astropy components as {rep}")
    for k in m:
        check(apu.Unit(str(getattr(z, k).unit)) == m[k].unit, f"{rep}: {k} in {getattr(z, k).unit}, given {m[k].unit}")
    ctx.nt(bool(np.all(np.abs(xyz) > 1e-3)))
    ctx.label(f"{rep}->{to} {kind}")


@st.composite
def s_vel(draw):
    rep = draw(st.sampled_from([*KEYS, "coslat"]))
    sh = draw(st.sampled_from(SHAPES))
    return {"rep": rep, "shape": sh, "xyz": draw(regular(sh, 3)), "v": draw(points(sh, 3)), "un": draw(units3()), "base": draw(st.booleans()),
            "i": draw(st.integers(0, 2)), "mag": draw(st.sampled_from([1.0, 1e-3, 1e4]))}


@facet("C24", "velocities", s_vel, quick=420, thorough=5000, modes=("x64", "f32"), f32_frac=0.2, shards=2)
def velocities(case, ctx):
    """A velocity and its Astropy differential denote the same velocity at every point, and come back unchanged."""
    rep, sh = case["rep"], tuple(case["shape"])
    vr = "lonlat" if rep == "coslat" else rep
    xyz, v = A(case["xyz"], sh, 3), A(case["v"], sh, 3) * case["mag"]
    c = ref.from_cart(vr, xyz)
    comp = ref.vel_from_cart(vr, c, v)  # kpc / Myr and rad / Myr
    un = {}
    vals = {}
    for i, (k, kd) in enumerate(ref.COMPS[vr].items()):
        n = "d_lon_coslat" if rep == "coslat" and k == "lon" else f"d_{k}"
        un[n] = f"{case['un']['l'][i] if kd == 'L' else case['un']['a'][i]} / {case['un']['t'][i]}"
        w = comp[..., i] * (np.cos(c["lat"]) if n == "d_lon_coslat" else 1)
        vals[n] = w * usc(rate_unit(kd, "kpc", "Myr"), un[n])
    cls = LON_COS if rep == "coslat" else VEL[rep]
    eps = ctx.tol(1e-14, 1e-6)
    x = cls(**{k: Q(w, un[k]) for k, w in vals.items()})
    a = convert(x, apyc.BaseDifferential if case["base"] else DIF[rep])
    check(type(a) is DIF[rep], f"{rep} becomes {type(a)}")
    check(a.shape == sh, f"{rep}: shape {a.shape}")
    for k in un:
        q = getattr(a, k)
        check(q.unit == apu.Unit(un[k]), f"{rep}: {k} in {q.unit}, expected {un[k]}")
        close(q.value, vals[k], 1e-30, f"{rep}: {k}", rtol=2 * eps)
    base = make_rep(vr, {k: (c[k], "kpc" if kd == "L" else "rad") for k, kd in ref.COMPS[vr].items()})
    got = a.represent_as(apyc.CartesianDifferential, base) if rep != "cart3" else a
    got = np.moveaxis(got.d_xyz.to("kpc/Myr", apu.dimensionless_angles()).value, 0, -1)
    close(got, v, 1e3 * eps * scale_of(v), f"{rep}: Astropy's Cartesian velocity")
    # from Astropy: the same object, and one that Astropy made itself from the Cartesian velocity
    b = apyc.CartesianDifferential(*(np.moveaxis(v, -1, 0) * apu.kpc / apu.Myr))
    b = b if rep == "cart3" else b.represent_as(DIF[rep], base)
    ways = [cls.from_, lambda d: convert(d, cls), cx.vecs.AbstractVel3D.from_]
    for d, what in ((a, "back"), (b, "of Astropy")):
        y = ways[case["i"]](d)
        check(type(y) is cls, f"{rep} {what}: {type(y)}")
        for k in un:
            want = getattr(d, k)
            q = getattr(y, k)
            check(apu.Unit(str(q.unit)) == want.unit, f"{rep} {what}: {k} in {q.unit}, given {want.unit}")
            close(q.value, want.value, 1e-30, f"{rep} {what}: {k}", rtol=2 * eps)
        w = rate_of(y, rep) if rep != "coslat" else np.stack([val(y.d_lon_coslat, "rad/Myr") / np.cos(c["lat"]), val(y.d_lat, "rad/Myr"), val(y.d_distance, "kpc/Myr")], -1)
        close(ref.vel_to_cart(vr, c, w), v, 1e3 * eps * scale_of(v), f"{rep} {what}: velocity")
    ctx.nt(bool(np.all(v != 0)))
    ctx.label(rep)


# classes read from an Astropy quantity: (class, columns or 0 for any, order)
FROMQ = {"CartesianPos3D": 3, "CartesianVel3D": 3, "CartesianAcc3D": 3, "CartesianPos2D": 2, "CartesianVel2D": 2, "CartesianAcc2D": 2, "CartesianPos1D": 1,
         "CartesianVel1D": 1, "CartesianAcc1D": 1, "RadialPos": 1, "RadialVel": 1, "RadialAcc": 1, "CartesianPosND": 0, "CartesianVelND": 0, "CartesianAccND": 0,
         "FourVector": 4}


@st.composite
def s_q(draw):
    cls = draw(st.sampled_from(sorted(FROMQ)))
    n = FROMQ[cls] or draw(st.integers(1, 6))
    sh = draw(st.sampled_from(SHAPES))
    return {"cls": cls, "n": n, "shape": sh, "x": draw(points(sh, n, fl(0, 9) if cls == "RadialPos" else None)), "lu": draw(st.sampled_from(lus())), "tu": draw(st.sampled_from(["Myr", "yr"])),
            "int": draw(st.integers(0, 4)) == 0, "order": draw(st.sampled_from(["C", "F"])), "us": draw(st.permutations(lus()))[:1] + draw(st.lists(st.sampled_from(lus()), min_size=2, max_size=2))}


@facet("C24", "quantities", s_q, quick=350, thorough=3000, modes=("x64", "f32"), f32_frac=0.25)
def quantities(case, ctx):
    """Astropy quantities are read as vectors, component by component, in their units."""
    cls, sh, n = case["cls"], tuple(case["shape"]), case["n"]
    k = 2 if "Acc" in cls else 1 if "Vel" in cls else 0
    un = case["lu"] + ["", f" / {case['tu']}", f" / {case['tu']}2"][k]
    X = A(case["x"], sh, n)
    if case["int"]:
        X = np.round(X)
    V = np.asarray(X.astype(int) if case["int"] else X, order=case["order"])
    q = V << apu.Unit(un) if not case["int"] else apu.Quantity(V, un, dtype=int)
    C = getattr(cx.vecs, cls, None) or getattr(cx, cls)
    v = C.from_(q)
    check(type(v) is C, f"{cls}: {type(v)}")
    check(v.shape == (sh if not cls.endswith("ND") else sh), f"{cls}: shape {v.shape}, expected {sh}")
    eps = ctx.tol(1e-15, 1e-6)
    if cls == "FourVector":
        close(val(v.t, "s"), X[..., 0] * (1 * apu.Unit(un)).to_value("km") / 299792.458, 1e-30, "t", rtol=5 * eps)
        close(xyz_of(v.q, case["lu"]), X[..., 1:], 0.0, "q", rtol=2 * eps)
    elif cls.endswith("ND"):
        g = next(iter(getattr(v, c) for c in v.components))
        close(val(g, un), X, 0.0, cls, rtol=2 * eps)
    else:
        names = {0: ["x", "y", "z"], 1: ["d_x", "d_y", "d_z"], 2: ["d2_x", "d2_y", "d2_z"]}[k][:n]
        if "Radial" in cls:
            names = [["r", "d_r", "d2_r"][k]]
        for i, c in enumerate(names):
            g = getattr(v, c)
            check(apu.Unit(str(g.unit)) == apu.Unit(un), f"{cls}.{c} in {g.unit}, given {un}")
            close(g.value, X[..., i], 0.0, f"{cls}.{c}", rtol=2 * eps)
        # one by one, each in its unit
        us = [case["us"][i] + un[len(case["lu"]):] for i in range(n)]
        parts = {c: X[..., i] * usc(un, us[i]) * apu.Unit(us[i]) for i, c in enumerate(names)}
        for w in (C.from_(parts), C(**parts)):
            for i, c in enumerate(names):
                g = getattr(w, c)
                check(apu.Unit(str(g.unit)) == apu.Unit(us[i]), f"{cls}.{c} in {g.unit}, given {us[i]}")
                close(val(g, un), X[..., i], 1e-30, f"{cls}.{c} of a mapping", rtol=6 * eps)
        if n == 3:
            b = convert(v, apu.Quantity)
            check(type(b) is apu.Quantity and b.shape == q.shape, f"{cls} to Astropy: {type(b)} {b.shape}")
            close(b.to_value(un), X, 0.0, f"{cls} back to Astropy", rtol=4 * eps)
            b = convert(C.from_(parts), apu.Quantity)
            close(b.to_value(un), X, 1e-30, f"{cls} of a mapping, back to Astropy", rtol=8 * eps)
    ctx.nt(bool(np.all(X != 0)))
    ctx.label(cls)


@st.composite
def s_scalar(draw):
    sh = draw(st.sampled_from(SHAPES))
    return {"shape": sh, "a": draw(arr(sh, fl(-20, 20))), "au": draw(st.sampled_from(AU + ["arcsec", "mas"])), "d": draw(arr(sh, fl(-3, 7))),
            "lu": draw(st.sampled_from(["pc", "kpc", "AU", "km", "Mpc", "lyr"])), "pu": draw(st.sampled_from(["mas", "arcsec", "rad"])), "ang": draw(st.integers(0, 3)),
            "wrap": draw(st.sampled_from([360, 180, 90, 0]))}


@facet("C24", "angles and distances", s_scalar, quick=350, thorough=3000, modes=("x64", "f32"), f32_frac=0.25)
def scalars(case, ctx):
    """Angles, distances, parallaxes and distance moduli go to Astropy and back unchanged."""
    sh = tuple(case["shape"])
    a, au = A(case["a"], sh), case["au"]
    eps = ctx.tol(1e-15, 1e-6)
    V = a * usc("rad", au)

    def same(q, v, un, cls, what, at=0.0):
        check(type(q) is cls, f"{what}: {type(q)}")
        w = q.unit if isinstance(q.unit, apu.UnitBase) else apu.Unit(str(q.unit))
        check(w == apu.Unit(un), f"{what}: unit {w}, expected {un}")
        close(q.value, v, at, what, rtol=2 * eps)

    x = Angle(V, au)
    same(convert(x, apu.Quantity), V, au, apu.Quantity, "angle to Quantity")
    same(convert(x, apyc.Angle), V, au, apyc.Angle, "angle to Angle")
    src = [lambda: V * apu.Unit(au), lambda: apyc.Angle(V, au), lambda: apyc.Longitude(V, au, wrap_angle=case["wrap"] * apu.deg),
           lambda: apyc.Latitude(np.arcsin(np.sin(a)) * usc("rad", au) * (1 - 1e-12), au)][case["ang"]]()
    back = Angle.from_(src)
    same(back, src.value, au, Angle, f"{type(src).__name__} to Angle")
    s = np.sin(src.to_value("rad"))
    close(np.sin(val(back, "rad")), s, ctx.tol(1e-12, 1e-4), "sine")
    same(Angle.from_(convert(x, apyc.Angle)), V, au, Angle, "angle back")
    same(Angle.from_(convert(x, apu.Quantity)), V, au, Angle, "angle back")
    # distances
    D = 10 ** A(case["d"], sh) * usc("pc", case["lu"])
    lu = case["lu"]
    d = Distance(D, lu)
    same(convert(d, apu.Quantity), D, lu, apu.Quantity, "distance to Quantity")
    ad = convert(d, apyc.Distance)
    same(ad, D, lu, apyc.Distance, "distance to Distance")
    for q in (D * apu.Unit(lu), apyc.Distance(D, lu), ad):
        same(Distance.from_(q), D, lu, Distance, f"{type(q).__name__} to Distance")
        same(convert(q, Distance), D, lu, Distance, f"{type(q).__name__} converted to Distance")
    P = (apyc.Distance(D, lu).parallax).to(case["pu"])
    for f in (Parallax.from_, lambda q: convert(q, Parallax)):
        for q in (P, apu.Quantity(P)):
            same(f(q), P.value, case["pu"], Parallax, f"{type(q).__name__} to Parallax")
    p = Parallax(P.value, case["pu"])
    same(convert(p, apu.Quantity), P.value, case["pu"], apu.Quantity, "parallax to Quantity")
    if not ctx.f32:
        close(apyc.Distance(parallax=convert(p, apu.Quantity)).to_value(lu), val(p.distance, lu), 0.0, "distance of the parallax", rtol=1e-12 + float(np.max(P.to_value("rad"))) ** 2)
    M = apyc.Distance(D, lu).distmod
    m = DistanceModulus.from_(M.value * apu.mag)
    same(m, M.value, "mag", DistanceModulus, "modulus", 1e-5 if ctx.f32 else 0.0)
    same(convert(M.value * apu.mag, DistanceModulus), M.value, "mag", DistanceModulus, "modulus converted", 1e-5 if ctx.f32 else 0.0)
    same(convert(m, apu.Quantity), M.value, "mag", apu.Quantity, "modulus to Quantity", 1e-5 if ctx.f32 else 0.0)
    if not ctx.f32:
        close(val(m.distance, lu), D, 0.0, "distance of Astropy's modulus", rtol=1e-12)
    ctx.nt(bool(np.all(V != 0)))
    ctx.label(f"{type(src).__name__} {au}")


@st.composite
def s_op(draw):
    return {"kind": draw(st.sampled_from(["boost", "vboost", "translation", "rotation", "rotation q"])), "p": draw(points([], 4))[0], "w": draw(points([], 3, fl(-3, 3)))[0],
            "x": draw(points([], 3))[0], "v": draw(points([], 3))[0], "lu": draw(st.sampled_from(lus())), "tu": draw(st.sampled_from(["Myr", "yr"])), "t": draw(fl(-9, 9)), "form": draw(st.booleans())}


@facet("C24", "operators", s_op, quick=150, thorough=1500, modes=("x64", "f32"), f32_frac=0.2)
def operators(case, ctx):
    """Operators built from Astropy quantities act with the meaning Astropy gives their parameters."""
    k, lu, tu = case["kind"], case["lu"], case["tu"]
    P, x, t = np.array(case["p"]), np.array(case["x"]), case["t"]
    f = usc("kpc", lu)
    tl = ctx.tol(1e-12, 1e-5)
    qx = cx.CartesianPos3D.from_(x * f * apu.Unit(lu))
    qt = Q(t, "Myr")
    sc = scale_of(P, x) * (1 + abs(t))
    if k == "boost":
        p = P[:3] * usc("kpc/Myr", f"{lu}/{tu}") * apu.Unit(f"{lu}/{tu}")
        op = O.GalileanBoost(p) if case["form"] else O.GalileanBoost.from_(p)
        y, t2 = op(qx, qt)
        close(val(t2, "Myr"), t, tl, "time")
        want = x + P[:3] * t
    elif k == "vboost":
        p = P[:3] * usc("kpc/Myr", f"{lu}/{tu}") * apu.Unit(f"{lu}/{tu}")
        op = O.VelocityBoost(p) if case["form"] else O.VelocityBoost.from_(p)
        v = np.array(case["v"])
        vel = cx.CartesianVel3D.from_(v * apu.kpc / apu.Myr)
        y, w = op(qx, vel)
        close(rate_of(w, "cart3"), v + P[:3], tl * scale_of(v, P), "boosted velocity")
        want = x
    elif k == "translation":
        ct = P[3] * 0.01
        p = np.array([ct, *P[:3]]) * f * apu.Unit(lu)
        op = O.GalileanTranslation(p) if case["form"] else O.GalileanTranslation.from_(p)
        y, t2 = op(qx, qt)
        close(val(t2, "Myr"), t + (ct * apu.kpc).to_value("km") / 299792.458 * usc("s", "Myr"), tl * sc * 10, "time")
        want = x + P[:3]
    else:
        R = ref.rot_matrix("z", case["w"][0]) @ ref.rot_matrix("y", case["w"][1]) @ ref.rot_matrix("x", case["w"][2])
        op = O.GalileanRotation.from_(R * apu.one) if k == "rotation q" else O.GalileanRotation.from_(R)
        y = op(qx)
        want = R @ x
    close(xyz_of(y, "kpc"), want, tl * sc, f"{k}: position")
    b = convert(y, apyc.CartesianRepresentation)
    close(b.xyz.to_value("kpc"), want, tl * sc, f"{k}: position, in Astropy")
    ctx.nt(bool(np.all(P != 0)))
    ctx.label(k)


@st.composite
def s_frame(draw):
    ang = st.one_of(fl(-360, 720), st.sampled_from([0.0, 90.0, 180.0]))
    return {"lon": draw(ang), "lat": draw(fl(-89.9, 89.9)), "d": draw(fl(0.1, 30)), "roll": draw(ang), "z": draw(fl(-0.05, 0.05)), "v": draw(points([], 3, fl(-300, 300)))[0],
            "lu": draw(st.lists(st.sampled_from(["kpc", "pc", "km"]), min_size=2, max_size=2)), "au": draw(st.lists(st.sampled_from(["deg", "rad", "arcmin", "hourangle"]), min_size=3, max_size=3)),
            "vu": draw(st.sampled_from(["km/s", "kpc/Myr", "m/s"])), "default": draw(st.sampled_from(["", "", "", "latest", "pre-v4.0", "v4.0"])), "x": draw(points([], 3))[0], "move": draw(st.integers(0, 2)) == 0}


@facet("C24", "frames", s_frame, quick=130, thorough=2000, modes=("x64", "f32"), f32_frac=0.2)
def frames(case, ctx):
    """Frames of Astropy are read with all their parameters."""
    if case["default"]:
        with apyc.galactocentric_frame_defaults.set(case["default"]):
            a = apyc.Galactocentric()
    else:
        lu, au = case["lu"], case["au"]
        g = lambda v, b, un: v * usc(b, un) * apu.Unit(un)  # noqa: E731
        a = apyc.Galactocentric(galcen_coord=apyc.ICRS(ra=g(case["lon"], "deg", au[0]), dec=g(case["lat"], "deg", au[1])), galcen_distance=g(case["d"], "kpc", lu[0]),
                                roll=g(case["roll"], "deg", au[2]), z_sun=g(case["z"], "kpc", lu[1]), galcen_v_sun=apyc.CartesianDifferential(g(np.array(case["v"]), "km/s", case["vu"])))
    f = cxf.Galactocentric.from_(a)
    check(type(f) is cxf.Galactocentric, f"{type(f)}")
    eps = ctx.tol(1e-14, 1e-6)
    for q, w, what in ((f.galcen.lon, a.galcen_coord.ra, "right ascension"), (f.galcen.lat, a.galcen_coord.dec, "declination"), (f.galcen.distance, a.galcen_distance, "distance"),
                       (f.roll, a.roll, "roll"), (f.z_sun, a.z_sun, "solar height"), *((getattr(f.galcen_v_sun, k), getattr(a.galcen_v_sun, k), f"solar velocity {k}") for k in ("d_x", "d_y", "d_z"))):
        un = apu.Unit(str(q.unit))
        check(un == w.unit, f"{what} in {un}, given {w.unit}")
        if what in ("right ascension", "roll"):
            close_ang(np.asarray(q.value, dtype=float) * usc(str(q.unit), "rad"), w.to_value("rad"), 20 * eps, what)
        else:
            close(np.asarray(q.value, dtype=float), w.value, 1e-30, what, rtol=4 * eps)
    check(type(cxf.ICRS.from_(apyc.ICRS())) is cxf.ICRS, "ICRS")
    # the same point as Astropy
    if not ctx.f32 and case["move"]:
        x = np.array(case["x"])
        s = apyc.ICRS(apyc.CartesianRepresentation(x * apu.kpc, differentials=apyc.CartesianDifferential(np.zeros(3) * apu.km / apu.s))).transform_to(a)
        op = cxf.frame_transform_op(cxf.ICRS.from_(apyc.ICRS()), f)
        p, v = op(cx.CartesianPos3D.from_(x * apu.kpc), cx.CartesianVel3D.from_(np.zeros(3) * apu.km / apu.s))
        close(xyz_of(p, "kpc"), s.cartesian.xyz.to_value("kpc"), 1e-9 * scale_of(x, a.galcen_distance.to_value("kpc")), "transformed position")
        close(rate_of(v, "cart3", "km", "s"), s.velocity.d_xyz.to_value("km/s"), 1e-8 * 300, "transformed velocity")
    ctx.nt(not case["default"])
    ctx.label(case["default"] or "given")
