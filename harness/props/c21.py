"""C21: frame transforms agree with Astropy, invert each other, and are undefined for the null frame."""

import astropy.coordinates as apyc
import jax

import coordinax.frames as cxf
from coordinax.frames import FrameTransformError, frame_transform_op
from plum import convert

from gens import *
from core import facet
from props.c05 import regular

RULE = ("A case is one or two Galactocentric frames (Galactic centre direction over the sphere, distance, roll, solar height "
        "and velocity, each in its own units, or the default) and a star (position in any 3-D system, velocity in any "
        "system, or plain quantities), or a chain of frames. Non-trivial: the star is further than 1e-3 of the Galactic "
        "centre distance from the origin and some frame is not the default.")
ASSUMPTIONS = ["Astropy's ICRS/Galactocentric transformation is the oracle, cross-checked with a NumPy formula",
               "stars stay off the axis of their own system",
               "Distance arrays as Cartesian coordinates, batches without vmap and lone positions are outside of the domain (they raise)"]

VREPS = ["cart3", "cyl", "sph", "math", "lonlat", "coslat"]
ROLL0 = np.deg2rad(58.5986320306)


@st.composite
def frame(draw):
    if draw(st.integers(0, 5)) == 0:
        return None
    opt = lambda s: draw(st.one_of(st.none(), s, s, s))  # noqa: E731
    return {
        "lon": opt(st.one_of(fl(0, 359.99), st.sampled_from([0.0, 90.0, 180.0, 270.0]))),
        "lat": opt(st.one_of(fl(-89, 89), st.sampled_from([0.0, 90.0, -90.0]))),
        "d": opt(st.one_of(fl(0.5, 30), fl(0.05, 3))),
        "roll": opt(st.one_of(fl(-200, 200), st.sampled_from([0.0, 180.0, 58.5986]))),
        "z": opt(st.one_of(fl(-0.9, 0.9), fl(-0.01, 0.01), st.sampled_from([0.0, 1.0]))),  # of the distance
        "v": opt(st.lists(st.one_of(fl(-300, 300), st.just(0.0)), min_size=3, max_size=3)),
        "au": draw(st.sampled_from(["deg", "rad", "arcmin"])), "lu": draw(st.sampled_from(["kpc", "pc", "km"])),
        "vu": draw(st.sampled_from(["km / s", "kpc / Myr", "m / s"])),
        "form": draw(st.sampled_from(["init", "init", "from_", "astropy", "angle"])),
    }


@st.composite
def star(draw, quantities=True):
    rep = draw(st.sampled_from(REPS3 + (["quantity"] if quantities else [])))
    vrep = "quantity" if rep == "quantity" else draw(st.sampled_from(VREPS))
    return {"rep": rep, "vrep": vrep, "xyz": draw(regular([], 3))[0], "v": draw(points([], 3))[0],
            "lu": draw(st.sampled_from(["kpc", "pc", "km"])), "tu": draw(st.sampled_from(["Myr", "s"])),
            "au": draw(st.sampled_from(["rad", "deg"])), "mag": draw(st.sampled_from([1.0, 1.0, 1e-2, 30.0]))}


def params(f):
    """Plain parameters: radians, kpc, km/s."""
    f = f or {}
    g = lambda k, d: d if f.get(k) is None else f[k]  # noqa: E731
    d = g("d", 8.122)
    z = 0.0208 if f.get("z") is None else f["z"] * d
    if f.get("z") is None and d < 0.03:
        z = 0.0
    return {"lon": np.deg2rad(g("lon", 266.4051)), "lat": np.deg2rad(g("lat", -28.936175)), "d": d,
            "roll": np.deg2rad(g("roll", 0.0)), "z": z, "v": np.array(g("v", [12.9, 245.6, 7.78]))}


def ap_frame(f):
    p = params(f)
    return apyc.Galactocentric(
        galcen_coord=apyc.ICRS(ra=p["lon"] * apu.rad, dec=p["lat"] * apu.rad), galcen_distance=p["d"] * apu.kpc,
        roll=p["roll"] * apu.rad, z_sun=p["z"] * apu.kpc,
        galcen_v_sun=apyc.CartesianDifferential(p["v"] * apu.km / apu.s))


def ap_given(f):
    """The same frame in Astropy, in the case's own units."""
    p = params(f)
    au, lu, vu = f["au"], f["lu"], f["vu"]
    lat = np.clip(p["lat"] * usc("rad", au), -90 * usc("deg", au), 90 * usc("deg", au))
    return apyc.Galactocentric(
        galcen_coord=apyc.ICRS(ra=p["lon"] * usc("rad", au) * apu.Unit(au), dec=lat * apu.Unit(au)),
        galcen_distance=p["d"] * usc("kpc", lu) * apu.Unit(lu), roll=p["roll"] * usc("rad", au) * apu.Unit(au),
        z_sun=p["z"] * usc("kpc", lu) * apu.Unit(lu),
        galcen_v_sun=apyc.CartesianDifferential(p["v"] * usc("km/s", vu) * apu.Unit(vu)))


def build(f):
    if f is None:
        return cxf.Galactocentric()
    if f["form"] == "astropy":
        return cxf.Galactocentric.from_(ap_given(f))
    p = params(f)
    au, lu, vu = f["au"], f["lu"], f["vu"]
    kw = {}
    if any(f[k] is not None for k in ("lon", "lat", "d")):
        lim = 90 * usc("deg", au)
        kw["galcen"] = cx.vecs.LonLatSphericalPos(
            lon=Q(p["lon"] * usc("rad", au), au), lat=Q(np.clip(p["lat"] * usc("rad", au), -lim, lim), au),
            distance=Q(p["d"] * usc("kpc", lu), lu))
    if f["roll"] is not None:
        kw["roll"] = (Angle if f["form"] == "angle" else Q)(p["roll"] * usc("rad", au), au)
    if f["z"] is not None:
        kw["z_sun"] = Q(p["z"] * usc("kpc", lu), lu)
    if f["v"] is not None:
        v = Q(p["v"] * usc("km/s", vu), vu)
        kw["galcen_v_sun"] = v if f["form"] == "from_" else cx.CartesianVel3D.from_(v)
    return cxf.Galactocentric.from_(kw) if f["form"] == "from_" else cxf.Galactocentric(**kw)


def ok(f):
    p = params(f)
    return abs(p["z"]) <= p["d"]


def coslat_vel(v, lu, tu):
    c = cx.vecs.LonCosLatSphericalVel
    return c(d_lon_coslat=Q(v[0], f"rad/{tu}"), d_lat=Q(v[1], f"rad/{tu}"), d_distance=Q(v[2], f"{lu}/{tu}"))


def make(s):
    """(arguments, x in kpc, v in km/s)."""
    f = usc("kpc", s["lu"])
    x = np.array(s["xyz"]) * s["mag"]
    v = np.array(s["v"]) * 50.0  # km/s
    vk = v * usc("km/s", "kpc/Myr")
    un = f"{s['lu']}/{s['tu']}"
    if s["rep"] == "quantity":
        return (Q(x * f, s["lu"]), Q(vk * usc("kpc/Myr", un), un)), x, v
    pos = pos_from_xyz(s["rep"], x * f, s["lu"], s["au"])
    vr = "lonlat" if s["vrep"] == "coslat" else s["vrep"]
    c = ref.from_cart(vr, x)
    comp = ref.vel_from_cart(vr, c, vk)
    fac = np.array([usc(rate_unit(k, "kpc", "Myr"), rate_unit(k, s["lu"], s["tu"])) for k in ref.COMPS[vr].values()])
    comp = comp * fac
    if s["vrep"] == "coslat":
        comp[0] = comp[0] * np.cos(c["lat"])
        return (pos, coslat_vel(comp, s["lu"], s["tu"])), x, v
    return (pos, mk_rate(vr, comp, s["lu"], s["tu"])), x, v


def read(out, what):
    """(x kpc, v km/s) of a transform's result."""
    check(isinstance(out, tuple) and len(out) == 2, f"{what}: {type(out)}")
    q, p = out
    if isinstance(q, cx.vecs.AbstractVector):
        check(type(q) is cx.CartesianPos3D and type(p) is cx.CartesianVel3D, f"{what}: {type(q)} {type(p)}")
        return xyz_of(q, "kpc"), rate_of(p, "cart3") * usc("kpc/Myr", "km/s")
    check(q.shape == (3,) and p.shape == (3,), f"{what}: shapes {q.shape} {p.shape}")
    return val(q, "kpc"), val(p, "km/s")


def np_matrix(p):
    """Rotation ICRS -> Galactocentric and the Sun's position, written out."""
    cl, sl, cb, sb = np.cos(p["lon"]), np.sin(p["lon"]), np.cos(p["lat"]), np.sin(p["lat"])
    e1 = np.array([cb * cl, cb * sl, sb])  # towards the Galactic centre
    e2 = np.array([-sl, cl, 0.0])
    e3 = np.array([-sb * cl, -sb * sl, cb])
    a = ROLL0 - p["roll"]
    R = np.stack([e1, np.cos(a) * e2 + np.sin(a) * e3, -np.sin(a) * e2 + np.cos(a) * e3])
    s = p["z"] / p["d"]
    c = np.sqrt(max(0.0, 1 - s * s))
    H = np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])
    return H @ R, -H @ np.array([p["d"], 0, 0])


def forward(f, x, v):
    p = params(f)
    M, o = np_matrix(p)
    return M @ x + o, M @ v + p["v"]


def backward(f, x, v):
    p = params(f)
    M, o = np_matrix(p)
    return M.T @ (x - o), M.T @ (v - p["v"])


def compare(out, want, tl, sx, sv, what):
    gx, gv = read(out, what)
    close(gx, want[0], tl * sx, f"{what}: position")
    close(gv, want[1], tl * sv * 10, f"{what}: velocity")


def scales(fs, x, v, s):
    ps = [params(f) for f in fs]
    sx = scale_of(x, *[p["d"] for p in ps])
    sv = scale_of(v, *[p["v"] for p in ps], 1.0)
    if s["vrep"] not in ("cart3", "quantity"):
        rho = np.hypot(x[0], x[1])
        sv = sv * max(1.0, scale_of(x) / rho)
    return sx, sv


def steep(fs, ctx):
    """The tilt is the arcsine of z_sun / distance: its error near 1."""
    return ctx.tol(1e-7, 3e-3) if any(abs(p["z"]) > 0.999 * p["d"] for p in map(params, fs)) else 0.0


def nontrivial(ctx, fs, x):
    ctx.nt(any(f is not None for f in fs) and scale_of(x) > 1e-3 * params(fs[0])["d"])


@st.composite
def s_icrs(draw):
    return {"f": draw(frame()), "s": draw(star()), "back": draw(st.booleans()), "pick": draw(st.integers(0, 3))}


@facet("C21", "astropy", s_icrs, quick=90, thorough=4000, modes=("x64", "f32"), f32_frac=0.2, shards=4)
def vs_astropy(case, ctx):
    """ICRS to Galactocentric and back, against Astropy."""
    f, s = case["f"], case["s"]
    if not ok(f):
        raise Skip("Sun higher than the Galactic centre is far")
    g, i = build(f), cxf.ICRS()
    args, x, v = make(s)
    a, b = (g, i) if case["back"] else (i, g)
    op = frame_transform_op(a, b) if s["lu"] == "kpc" else a.transform_op(b)
    check(bool(op.is_inertial), "is_inertial")
    apg = ap_frame(f)
    rep = apyc.CartesianRepresentation(x * apu.kpc, differentials=apyc.CartesianDifferential(v * apu.km / apu.s))
    if case["back"]:
        ap = apg.realize_frame(rep).transform_to(apyc.ICRS()).cartesian
        mine = backward(f, x, v)
    else:
        ap = apyc.ICRS(rep).transform_to(apg).cartesian
        mine = forward(f, x, v)
    want = ap.xyz.to_value("kpc"), ap.differentials["s"].d_xyz.to_value("km/s")
    sx, sv = scales([f], x, v, s)
    close(mine[0], want[0], 1e-9 * sx, "oracles disagree: position")  # NumPy against Astropy
    close(mine[1], want[1], 1e-9 * sv, "oracles disagree: velocity")
    tl = ctx.tol(1e-9, 3e-5) * (10 if s["rep"] != "quantity" else 1)
    tl = max(tl, steep([f], ctx))
    compare(op(*args), want, tl, sx, sv, f"{'GCF to ICRS' if case['back'] else 'ICRS to GCF'}")
    if case["pick"] == 0:
        compare(op.inverse.inverse(*args), want, tl, sx, sv, "inverse of the inverse")
    else:
        compare(op.inverse(*op(*args)), (x, v), 3 * tl, sx, sv, "there and back")
    if s["rep"] == "quantity":
        close(val(op(args[0]), "kpc"), want[0], tl * sx, "position quantity alone")
    nontrivial(ctx, [f], x)
    ctx.label(f"{s['rep']}/{s['vrep']}")


@st.composite
def s_chain(draw):
    n = draw(st.integers(2, 4))
    fs = [draw(st.one_of(frame(), frame(), st.just("icrs"))) for _ in range(n)]
    if draw(st.booleans()):  # return to a frame with the same parameters
        fs[-1] = fs[0]
    return {"fs": fs, "s": draw(star()), "how": draw(st.sampled_from(["steps", "pipe", "simplify"]))}


@facet("C21", "chain", s_chain, quick=70, thorough=2500, shards=6)
def chain(case, ctx):
    """A walk through frames is the composition of the single transforms, each way round."""
    fs, s = case["fs"], case["s"]
    if not all(f == "icrs" or ok(f) for f in fs):
        raise Skip("Sun higher than the Galactic centre is far")
    frames = [cxf.ICRS() if f == "icrs" else build(f) for f in fs]
    args, x, v = make(s)
    gs = [f for f in fs if f != "icrs"] or [None]
    sx, sv = scales(gs, x, v, s)
    wx, wv = x, v
    if fs[0] != "icrs":
        wx, wv = backward(fs[0], wx, wv)
    sx, sv = scale_of(sx, wx), scale_of(sv, wv)
    if fs[-1] != "icrs":
        wx, wv = forward(fs[-1], wx, wv)
    sx, sv = scale_of(sx, wx), scale_of(sv, wv)
    ops = [a.transform_op(b) for a, b in zip(frames, frames[1:])]
    tl = max(1e-8, steep(gs, ctx)) * len(fs)
    if case["how"] == "steps":
        cur = args
        for o in ops:
            cur = o(*cur)
    else:
        o = ops[0]
        for nxt in ops[1:]:
            o = o | nxt
        if case["how"] == "simplify":
            o = cx.ops.simplify_op(o)
        cur = o(*args)
        compare(o.inverse(*as_cart(cur)), (x, v), 2 * tl, sx, sv, "inverse of the chain")
    moved = not np.allclose(wx, x) or len(set(map(str, fs))) > 1
    compare(as_cart(cur), (wx, wv), tl, sx, sv, "end of the walk")
    for i in range(len(fs)):
        if all(type(b) is type(frames[i]) for b in (frames[i],)) and i == 0:
            o = frames[i].transform_op(frames[i])
            compare(as_cart(o(*args)), (x, v), 1e-9, sx, sv, "a frame to itself")
    ctx.nt(moved)
    ctx.label(f"{len(fs)} frames, {case['how']}")


def as_cart(out):
    """Identity hands the argument back as it is: read any representation."""
    q, p = out
    if not isinstance(q, cx.vecs.AbstractVector) or isinstance(q, cx.CartesianPos3D) and isinstance(p, cx.CartesianVel3D):
        return out
    x = xyz_of(q, "kpc")
    rep = rep_of(q)
    if isinstance(p, cx.vecs.LonCosLatSphericalVel):
        c = ref.from_cart("lonlat", x)
        comp = np.array([float(val(p.d_lon_coslat, "rad/Myr")) / np.cos(c["lat"]), float(val(p.d_lat, "rad/Myr")),
                         float(val(p.d_distance, "kpc/Myr"))])
        vr = "lonlat"
    else:
        vr = next(k for k, c in VEL.items() if type(p) is c)
        comp = rate_of(p, vr)
    vc = ref.vel_to_cart(vr, ref.from_cart(vr, x), comp)
    del rep
    return cx.CartesianPos3D.from_(Q(x, "kpc")), cx.CartesianVel3D.from_(Q(vc, "kpc/Myr"))


@st.composite
def s_vmap(draw):
    n = draw(st.integers(1, 4))
    return {"f": draw(frame()), "stars": [draw(star()) for _ in range(n)], "how": draw(st.sampled_from(["vmap", "jit", "frames", "zsun"])),
            "zs": draw(st.lists(fl(-0.9, 0.9), min_size=n, max_size=n)), "back": draw(st.booleans())}


@facet("C21", "batched", s_vmap, quick=40, thorough=800, shards=4)
def batched(case, ctx):
    """Under vmap over stars or frame parameters, and under jit, each star is transformed as alone."""
    f = case["f"]
    if not ok(f):
        raise Skip("Sun higher than the Galactic centre is far")
    g, i = build(f), cxf.ICRS()
    xs = np.array([np.array(s["xyz"]) * s["mag"] for s in case["stars"]])
    vs = np.array([np.array(s["v"]) * 50 for s in case["stars"]])
    q, p = Q(xs, "kpc"), Q(vs, "km/s")
    ref1 = backward if case["back"] else forward
    mk = lambda gg: gg.transform_op(i) if case["back"] else i.transform_op(gg)  # noqa: E731
    d = params(f)["d"]
    if case["how"] in ("frames", "zsun"):
        zs = np.array(case["zs"]) * d
        base = dict(f or {k: None for k in ("lon", "lat", "d", "roll", "z", "v")})
        want = [ref1({**base, "z": z}, x, v) for z, x, v in zip(case["zs"], xs, vs)]
        def one(z, qq, pp):
            return mk(cxf.Galactocentric(galcen=g.galcen, roll=g.roll, z_sun=z, galcen_v_sun=g.galcen_v_sun))(qq, pp)
        if case["how"] == "frames":
            got = jax.vmap(one)(Q(zs, "kpc"), q, p)
        else:
            rs = [jax.jit(one)(Q(z, "kpc"), q[k], p[k]) for k, z in enumerate(zs)]
            got = Q(np.stack([val(r[0], "kpc") for r in rs]), "kpc"), Q(np.stack([val(r[1], "km/s") for r in rs]), "km/s")
    else:
        want = [ref1(f, x, v) for x, v in zip(xs, vs)]
        fn = mk(g)
        one = lambda qq, pp: fn(qq, pp)  # noqa: E731
        if case["how"] == "vmap":
            got = jax.vmap(one)(q, p)
        else:
            rs = [jax.jit(one)(q[k], p[k]) for k in range(len(xs))]
            got = Q(np.stack([val(r[0], "kpc") for r in rs]), "kpc"), Q(np.stack([val(r[1], "km/s") for r in rs]), "km/s")
    sx = scale_of(xs, d)
    sv = scale_of(vs, params(f)["v"], 1.0)
    close(val(got[0], "kpc"), np.stack([w[0] for w in want]), max(1e-9, steep([f], ctx)) * sx, f"{case['how']}: position")
    close(val(got[1], "km/s"), np.stack([w[1] for w in want]), max(1e-8, steep([f], ctx)) * sv, f"{case['how']}: velocity")
    ctx.nt(len(xs) > 1 or case["how"] != "vmap")
    ctx.label(case["how"])


@facet("C21", "undefined", lambda: st.fixed_dictionaries({"f": frame(), "k": st.integers(0, 4)}), quick=30, thorough=300)
def undefined(case, ctx):
    """The null frame cannot be transformed to or from; constructing a frame from a frame of another kind is refused."""
    if not ok(case["f"]):
        raise Skip("Sun higher than the Galactic centre is far")
    g, i, n = build(case["f"]), cxf.ICRS(), cxf.NoFrame()
    a, b = [(n, g), (g, n), (n, i), (i, n), (n, n)][case["k"]]
    for fn in (frame_transform_op, lambda a, b: a.transform_op(b)):
        try:
            r = fn(a, b)
        except FrameTransformError:
            pass
        else:
            raise Violation(f"{type(a).__name__} to {type(b).__name__} gives {r!r}")
    check(cxf.Galactocentric.from_(g) is g, "a frame from itself")
    for cls, o in ((cxf.Galactocentric, i), (cxf.ICRS, g), (cxf.Galactocentric, n)):
        try:
            r = cls.from_(o)
        except TypeError:
            pass
        else:
            raise Violation(f"{cls.__name__} from {o!r} gives {r!r}")
    apg = ap_frame(case["f"])
    with_data = apg.realize_frame(apyc.CartesianRepresentation([1, 2, 3] * apu.kpc))
    try:
        r = cxf.Galactocentric.from_(with_data)
    except Exception:  # noqa: BLE001
        pass
    else:
        raise Violation("a frame with data is read as a frame")
    ctx.nt(case["f"] is not None)
    ctx.label(f"{type(a).__name__}->{type(b).__name__}")
