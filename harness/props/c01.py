"""C01: converting a position between representations never moves the point."""

from gens import *
import core
from core import facet

RULE = ("A case is a batch of positions (native components or Cartesian points, with special "
        "values: axes, planes, poles, azimuths outside one turn) in drawn units, and one "
        "conversion or a chain of 2-5 conversions. Non-trivial: at least one conversion to a "
        "different representation, at least one point not at the origin.")
ASSUMPTIONS = ["reference geometry in harness/ref.py (NumPy float64)",
               "tolerance 5e-8 of the coordinate scale near poles, 1e-11 elsewhere (float64); "
               "2e-3 / 5e-5 in float32"]


def azim_deg():
    return st.one_of(fl(-540, 900), fl(0, 360),
                     st.sampled_from([0.0, 90.0, 180.0, 270.0, 360.0, -90.0, 450.0]))


def polar_deg():
    return st.one_of(fl(0, 180), fl(5, 175), st.sampled_from([0.0, 90.0, 180.0, 0.01]))


def radius():
    return st.one_of(fl(0.01, 9), st.sampled_from([0.0, 1.0, 1e-3]))


ELEM = {"L+": radius, "L": coord, "A": azim_deg, "P": polar_deg,
        "B": lambda: polar_deg().map(lambda x: x - 90)}


def kinds(rep):
    out = []
    for k, kd in ref.COMPS[rep].items():
        if kd == "L" and k in ("r", "rho", "distance"):
            kd = "L+"
        out.append((k, kd))
    return out


@st.composite
def native(draw, reps_a, reps_b):
    a, b = draw(st.sampled_from(reps_a)), draw(st.sampled_from(reps_b))
    shape = draw(st.sampled_from(SHAPES))
    case = {"a": a, "b": b, "shape": shape, "lu": draw(st.sampled_from(LUNITS)),
            "au": draw(st.sampled_from(AUNITS)), "form": draw(st.sampled_from(["method", "func"]))}
    D = None
    if "prolate" in (a, b):
        D = case["Delta"] = draw(fl(0.3, 4))
        case["DeltaB"] = draw(st.one_of(st.none(), fl(0.3, 4)))
        case["du"] = case["lu"] if os.environ.get("VERIF_MODE") == "f32" else draw(st.sampled_from(LUNITS))
        if a == b and case["du"] != case["lu"] and draw(st.booleans()):
            # the same number as before, in another unit
            f = usc(case["du"], case["lu"])
            if 1e-3 <= f <= 1e3:
                case["DeltaB"] = D * f
    if a == "prolate":
        n = size(shape)
        case["c"] = {
            "mu": [D * D * (1 + t) for t in draw(st.lists(st.one_of(fl(0, 6), st.just(0.0)), min_size=n, max_size=n))],
            "nu": [D * D * t for t in draw(st.lists(st.one_of(fl(-1, 1), st.sampled_from([0.0, 1.0, -1.0])), min_size=n, max_size=n))],
            "phi": draw(arr(shape, azim_deg())),
        }
    else:
        case["c"] = {k: draw(arr(shape, ELEM[kd]())) for k, kd in kinds(a)}
    return case


def f32_pole(v, kd, au):
    """Keep polar angles inside their range after rounding to float32.  The exact pole in
    arcmin is the known finding KF01 and is kept out of the generated cases."""
    if au == "rad" and kd == "P":
        return np.clip(v, 0, 3.1415925)
    if au == "rad" and kd == "B":
        return np.clip(v, -1.5707962, 1.5707962)
    if au == "arcmin" and kd == "P":
        return np.clip(v, 0.01, 10799.99)
    if au == "arcmin" and kd == "B":
        return np.clip(v, -5399.99, 5399.99)
    return v


def build(case, ctx):
    """Position and its reference xyz (in case['lu'])."""
    a, shape, lu, au = case["a"], case["shape"], case["lu"], case["au"]
    kw, comps = {}, {}
    for k, kd in kinds(a):
        x = A(case["c"][k], shape)
        if kd in ("A", "P", "B"):
            comps[k] = np.deg2rad(x)
            v = x * usc("deg", au)
            if kd == "P":
                v = np.clip(v, 0, 180 * usc("deg", au))
            if kd == "B":
                v = np.clip(v, -90 * usc("deg", au), 90 * usc("deg", au))
            if ctx.f32:
                v = f32_pole(v, kd, au)
            kw[k] = Q(v, au)
        elif kd == "L2":
            comps[k] = x
            if ctx.f32:  # stay inside |nu| <= Delta^2 <= mu after rounding
                x = x * (1 + 1e-5) if k == "mu" else x * (1 - 1e-5)
                comps[k] = x
            kw[k] = Q(x, f"{lu}2")
        else:
            comps[k] = x
            kw[k] = Q(x, lu)
    D = case.get("Delta")
    if a == "prolate":
        kw["Delta"] = Q(D, lu)
        if not ctx.f32:
            kw["mu"] = Q(np.maximum(A(case["c"]["mu"], shape), D**2), f"{lu}2")
            kw["nu"] = Q(np.clip(A(case["c"]["nu"], shape), -(D**2), D**2), f"{lu}2")
    vec = POS[a](**kw)
    return vec, ref.to_cart(a, comps, D)


def convert_to(vec, b, form, **kw):
    return (vec.represent_as(POS[b], **kw) if form == "method"
            else cx.represent_as(vec, POS[b], **kw))


def generic3(xyz, tol=0.17):
    r = np.linalg.norm(xyz, axis=-1)
    rho = np.hypot(xyz[..., 0], xyz[..., 1])
    return bool(np.all(r > 1e-2 * scale_of(xyz))) and bool(np.all(rho > tol * r))


def tol_for(case, xyz, ctx, reps):
    sc = scale_of(xyz, case.get("Delta") or 0, case.get("DeltaB") or 0)
    if "prolate" in reps:
        return ctx.tol(3e-7, 5e-3) * sc
    if DIM3(reps) and not generic3(xyz):
        return ctx.tol(5e-8, 2e-3) * sc
    return ctx.tol(1e-11, 5e-5) * sc


def DIM3(reps):
    return ref.DIM[reps[0]] == 3


def run_native(case, ctx):
    vec, xyz = build(case, ctx)
    a, b, lu = case["a"], case["b"], case["lu"]
    kw = {}
    if b == "prolate":
        D2 = case.get("DeltaB")
        if not (a == "prolate" and D2 is None):
            du = case.get("du") or lu
            kw["Delta"] = Q((D2 if D2 is not None else case["Delta"]) * usc(lu, du), du)
    out = convert_to(vec, b, case["form"], **kw)
    check(type(out) is POS[b], f"class {type(out)} instead of {POS[b]}")
    check(tuple(out.shape) == tuple(case["shape"]), f"shape {out.shape} != {case['shape']}")
    close(xyz_of(out, lu), xyz, tol_for(case, xyz, ctx, (a, b)), f"{a}->{b} moved the point")
    if b == "prolate":
        want = case["DeltaB"] if case.get("DeltaB") is not None else case["Delta"]
        close(val(out.Delta, lu), want, ctx.tol(1e-12, 1e-5) * want, f"{a}->prolate: focal length")
    ctx.nt(a != b and scale_of(xyz) > 1e-9)
    ctx.label(f"{a}->{b}")


@facet("C01", "native3d", lambda: native(REPS3, REPS3), quick=420, thorough=6000,
       modes=("x64", "f32"), shards=4)
def native3d(case, ctx):
    """One conversion among the 3-D systems, from native components, against ref.to_cart."""
    run_native(case, ctx)


@facet("C01", "prolate", lambda: st.one_of(native(["prolate"], REPS3P), native(REPS3P, ["prolate"])),
       quick=160, thorough=2500, modes=("x64", "f32"), shards=2)
def prolate(case, ctx):
    """Conversions to and from prolate spheroidal coordinates, with a change of focal length."""
    run_native(case, ctx)


# Points in units of the focal length, on and next to the surfaces where the formulae branch.
EPS = st.sampled_from([0.0, 1e-9, 1e-6, 1e-4, 1e-3, 5e-3, 2e-2, 0.1])


@st.composite
def surface_point(draw):
    e = draw(EPS) * draw(st.sampled_from([-1.0, 1.0]))
    t = draw(fl(-1.5, 1.5))  # latitude
    kind = draw(st.sampled_from(["sphere", "sphere", "axis", "disk", "focus", "far", "half", "free"]))
    if kind == "sphere":  # r = Delta (1 + e)
        return [(1 + e) * math.cos(t), (1 + e) * math.sin(t)]
    if kind == "axis":
        return [abs(e), draw(st.one_of(fl(-3, 3), st.sampled_from([-1.0, 0.0, 1.0])))]
    if kind == "disk":
        return [draw(fl(0, 3)), e]
    if kind == "focus":
        return [abs(e), draw(st.sampled_from([-1.0, 1.0])) + draw(EPS)]
    if kind == "far":
        s = draw(st.sampled_from([30.0, 1e3]))
        return [s * math.cos(t), s * math.sin(t)]
    if kind == "half":  # |nu| = Delta^2 / 2, where one form is exchanged for another
        m, nu = 1 + draw(fl(0, 4)), 0.5 * (1 + e)
        return [math.sqrt((m - 1) * (1 - nu)), math.sqrt(m * nu) * draw(st.sampled_from([-1.0, 1.0]))]
    return [draw(fl(0, 3)), draw(fl(-3, 3))]


NSURF = 12


@st.composite
def surfaces(draw):
    return {"pts": draw(st.lists(surface_point(), min_size=NSURF, max_size=NSURF)),
            "phi": draw(arr([NSURF], azim_deg())), "Delta": draw(fl(0.3, 4)),
            "a": draw(st.sampled_from(REPS3)), "lu": draw(st.sampled_from(LUNITS)),
            "du": draw(st.sampled_from(LUNITS))}


@facet("C01", "prolate_surfaces", surfaces, quick=60, thorough=1500, modes=("x64",))
def prolate_surfaces(case, ctx):
    """Points on and next to the focal sphere, foci, axis and disk, to prolate coordinates and back."""
    D, lu, du = case["Delta"], case["lu"], case["du"]
    p = np.abs(A(np.array(case["pts"])[:, 0], [NSURF])) * D
    z = A(np.array(case["pts"])[:, 1], [NSURF]) * D
    ph = np.deg2rad(A(case["phi"], [NSURF]))
    xyz = np.stack([p * np.cos(ph), p * np.sin(ph), z], -1)
    vec = pos_from_xyz(case["a"], xyz, lu)
    pro = vec.represent_as(POS["prolate"], Delta=Q(D * usc(lu, du), du))
    sc = np.maximum(np.linalg.norm(xyz, axis=-1), D)[:, None]
    off = np.abs(xyz_of(pro, lu) - xyz) / sc
    # next to the focal segment and the foci the coordinates lose half the digits
    near = (p < 1e-2 * D) | (np.abs(z) < 1e-2 * D)
    bad = np.where(near[:, None], off > 3e-7, off > 2e-8)
    check(not bad.any(), f"{case['a']}->prolate moved {xyz[bad.any(-1)].tolist()} (Delta={D}) by {off[bad].tolist()}")
    ctx.nt(True)
    ctx.label(f"from {case['a']}")


@facet("C01", "native2d", lambda: native(REPS2, REPS2), quick=60, thorough=800, modes=("x64", "f32"))
def native2d(case, ctx):
    """Conversions among the 2-D systems."""
    run_native(case, ctx)


@facet("C01", "native1d", lambda: native(REPS1, REPS1), quick=30, thorough=300, modes=("x64", "f32"))
def native1d(case, ctx):
    """Conversions among the 1-D systems (non-negative coordinate)."""
    case = dict(case, c={k: [abs(x) for x in v] for k, v in case["c"].items()})
    run_native(case, ctx)


@st.composite
def chains(draw):
    dim = draw(st.sampled_from([3, 3, 3, 3, 2]))
    reps = REPS3P if dim == 3 else REPS2
    shape = draw(st.sampled_from(SHAPES))
    path = draw(st.lists(st.sampled_from(reps), min_size=2, max_size=5))
    return {"shape": shape, "dim": dim, "path": path, "xyz": draw(points(shape, dim)),
            "lu": draw(st.sampled_from(LUNITS)), "exp": draw(st.sampled_from([0, 0, -3, 3])),
            "Deltas": draw(st.lists(fl(0.3, 4), min_size=len(path), max_size=len(path)))}


@facet("C01", "chain", chains, quick=260, thorough=4000, modes=("x64", "f32"), shards=3)
def chain(case, ctx):
    """A chain of conversions ends at the same point, and with the same components as the
    direct conversion, whatever the path."""
    f = 10.0 ** case["exp"]
    dim, lu = case["dim"], case["lu"]
    xyz = A(case["xyz"], case["shape"], dim) * f
    vec = start = pos_from_xyz(CARTOF[dim], xyz, lu)
    sc = scale_of(xyz)
    has_p = False
    for rep, D in zip(case["path"], case["Deltas"]):
        kw = {"Delta": Q(D * f, lu)} if rep == "prolate" else {}
        if rep == "prolate":
            has_p, sc = True, scale_of(sc, D * f)
        vec = vec.represent_as(POS[rep], **kw)
        check(type(vec) is POS[rep], f"class {type(vec)}")
        gen = dim == 2 or generic3(xyz)
        # prolate coordinates and f32 poles lose half the digits
        t = (ctx.tol(1e-6, 2e-2) if has_p else ctx.tol(1e-7, 5e-3) if not gen else ctx.tol(1e-11, 1e-4))
        close(xyz_of(vec, lu), xyz, t * sc, f"after {rep} in {case['path']}")
    last = case["path"][-1]
    if last != "prolate" and not has_p and (dim == 2 or generic3(xyz)):
        direct = start.represent_as(POS[last])
        for k, kd in ref.COMPS[last].items():
            g, w = val(getattr(vec, k), kind_unit(kd, lu)), val(getattr(direct, k), kind_unit(kd, lu))
            if kd == "A":
                close_ang(g, w, ctx.tol(1e-10, 1e-3), f"{last}.{k} by path {case['path']} vs direct")
            else:
                close(g, w, ctx.tol(1e-10, 1e-3) * (sc if kd == "L" else 1), f"{last}.{k} by path vs direct")
    ctx.nt(len(set(case["path"])) > 1 and scale_of(xyz) > 0)


@facet("C01", "kf_arcmin_pole", None, quick=0, thorough=0, modes=("f32",), known="KF01",
       cases=[{"lat_arcmin": 5400.0}])
def kf_arcmin_pole(case, ctx):
    """Fixed input of known finding KF01."""
    v = cx.vecs.LonLatSphericalPos(lon=Q(0.0, "rad"), lat=Q(case["lat_arcmin"], "arcmin"),
                                   distance=Q(1.0, "kpc"))
    out = v.represent_as(cx.CartesianPos3D)
    close(xyz_of(out, "kpc"), [0.0, 0.0, 1.0], 1e-4, "pole in arcmin")
