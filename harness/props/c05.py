"""C05: velocity conversion is the pushforward by the position conversion."""

from gens import *
from core import facet

RULE = ("A case is a batch of positions (rho > 0, special azimuths and planes included), a batch of "
        "velocities, the system of each, the form of the position (vector of any system, plain "
        "Cartesian quantity), units, and one conversion or a chain. Non-trivial: the velocity is "
        "not zero and its system changes.")
ASSUMPTIONS = ["analytic Jacobians in harness/ref.py", "positions away from each system's singular set"]


@st.composite
def regular(draw, shape, dim, strict=False):
    """Cartesian points off the singular sets (strict: also z != 0 and away from axes)."""
    n = size(shape)
    out = []
    for _ in range(n):
        rho = draw(fl(0.4, 8))
        phi = draw(st.one_of(fl(-180, 180), st.sampled_from([0.0, 90.0, 180.0, -90.0, 45.0])))
        z = draw(generic_coord() if strict else coord())
        c, s = [float(np.round(f(np.deg2rad(phi)), 12)) for f in (np.cos, np.sin)]
        out.append([rho * c, rho * s, z][:dim] if dim > 1 else [rho])
    return out


REPS = {3: REPS3P, 2: REPS2, 1: REPS1}


@st.composite
def vel_case(draw, dims=(3, 3, 3, 3, 2, 1), n_path=None, order=1):
    dim = draw(st.sampled_from(list(dims)))
    f32 = os.environ.get("VERIF_MODE") == "f32"
    reps = REPS3 if dim == 3 and f32 else REPS[dim]
    shape = draw(st.sampled_from(SHAPES))
    path = draw(st.lists(st.sampled_from(reps), min_size=1, max_size=n_path or 1))
    a = draw(st.sampled_from(reps))
    pform = draw(st.sampled_from(["vec", "vec", "vec", "quantity"]))
    prep = draw(st.sampled_from(reps))
    pro = "prolate" in (a, prep, *path)
    case = {"dim": dim, "shape": shape, "a": a, "path": path, "prep": prep, "pform": pform,
            "xyz": draw(regular(shape, dim, strict=pro)),
            "v": draw(points(shape, dim)), "lu": draw(st.sampled_from(LUNITS)),
            "tu": draw(st.sampled_from(TUNITS)), "form": draw(st.sampled_from(["method", "func"]))}
    # float32 squares of lengths in metres or km overflow: one unit there
    case["plu"] = case["lu"] if f32 else draw(st.sampled_from(LUNITS))
    if pro:
        case["Delta"] = draw(fl(0.3, 4))
    return case


def setup(case, order=1):
    dim, lu, tu, a = case["dim"], case["lu"], case["tu"], case["a"]
    xyz = A(case["xyz"], case["shape"], dim)
    D = case.get("Delta")
    # position, in another length unit; numbers in `lu`
    f = usc(lu, case["plu"])
    if case["pform"] == "quantity":
        pos = Q(xyz * f, case["plu"])
    else:
        pos = pos_from_xyz(case["prep"], xyz * f, case["plu"], "rad", D * f if D else None)
    vc = A(case["v"], case["shape"], dim)
    comp = ref.vel_from_cart(a, ref.from_cart(a, xyz, D), vc, D)
    return xyz, pos, vc, comp, D


def tols(case, ctx, reps):
    if "prolate" in reps:
        return ctx.tol(1e-6, 2e-2)
    return ctx.tol(1e-9, 3e-3)


def conv(q, cls, case, *args):
    kw = {"Delta": Q(case["Delta"], case["lu"])} if "Delta" in case and case.get("_kw") else {}
    if case["form"] == "method":
        return q.represent_as(cls, *args, **kw)
    return cx.represent_as(q, cls, *args, **kw)


def cart_rates(vec, rep, xyz, D, case, order=1):
    comp = rate_of(vec, rep, case["lu"], case["tu"], order)
    return ref.vel_to_cart(rep, ref.from_cart(rep, xyz, D), comp, D)


def run_path(case, ctx, table, order, extra=()):
    xyz, pos, vc, comp, D = setup(case)
    lu, tu, a = case["lu"], case["tu"], case["a"]
    vec = mk_rate(a, comp, lu, tu, order)
    sc = scale_of(vc) * max(1.0, *(scale_of(xyz[..., :2]) / np.atleast_1d(
        np.linalg.norm(xyz[..., :2], axis=-1)).min(), 1))
    reps = [a, case["prep"], *case["path"]]
    case = dict(case, _kw="prolate" in reps)
    cur = a
    for b in case["path"]:
        vec = conv(vec, table[b], case, *extra, pos)
        cur = b
        check(type(vec) is table[b], f"class {type(vec)} instead of {table[b]}")
        check(tuple(vec.shape) == tuple(case["shape"]), f"shape {vec.shape} != {case['shape']}")
        close(cart_rates(vec, b, xyz, D, case, order), vc, tols(case, ctx, reps) * sc,
              f"{a} via {case['path']} (at a {case['pform']} {case['prep']} position): "
              "Cartesian components changed")
    ctx.nt(scale_of(vc) > 1e-9 and any(b != a for b in case["path"]))
    ctx.label(f"{a}->{cur}")


@facet("C05", "convert", lambda: vel_case(), quick=260, thorough=4000, modes=("x64", "f32"), shards=6,
       f32_frac=0.25)
def convert(case, ctx):
    """One conversion: Cartesian components (analytic Jacobian) and so the speed are kept."""
    run_path(case, ctx, VEL, 1)


@facet("C05", "chain", lambda: vel_case(n_path=4), quick=70, thorough=1500, modes=("x64",), shards=4)
def chain(case, ctx):
    """A chain of conversions keeps the Cartesian components at every step."""
    run_path(case, ctx, VEL, 1)


@st.composite
def lincase(draw):
    case = draw(vel_case())
    case["w"] = draw(points(case["shape"], case["dim"]))
    case["s"] = [draw(coord()), draw(coord())]
    return case


@facet("C05", "linear", lincase, quick=50, thorough=1000, modes=("x64",), shards=3)
def linear(case, ctx):
    """The conversion of a combination is the combination of the conversions."""
    xyz, pos, vc, comp, D = setup(case)
    dim, a, b, lu, tu = case["dim"], case["a"], case["path"][0], case["lu"], case["tu"]
    wc = A(case["w"], case["shape"], dim)
    wcomp = ref.vel_from_cart(a, ref.from_cart(a, xyz, D), wc, D)
    s, t = case["s"]
    case = dict(case, _kw="prolate" in (a, b, case["prep"]))
    outs = [rate_of(conv(mk_rate(a, c, lu, tu), VEL[b], case, pos), b, lu, tu)
            for c in (comp, wcomp, s * comp + t * wcomp)]
    sc = scale_of(*outs) * max(1, abs(s), abs(t))
    close(outs[2], s * outs[0] + t * outs[1], ctx.tol(1e-7 if "prolate" in (a, b, case["prep"]) else 1e-10, 0) * sc,
          f"{a}->{b} is not linear")
    ctx.nt(a != b and scale_of(vc) > 0 and scale_of(wc) > 0 and abs(s) > 0 and abs(t) > 0)


@st.composite
def coslat_case(draw):
    """As vel_case in 3-D, all systems."""
    return draw(vel_case(dims=(3,)))


@facet("C05", "coslat", coslat_case, quick=50, thorough=1000, modes=("x64", "f32"), shards=3)
def coslat(case, ctx):
    """lon-lat velocities with the cos(lat) factor: any system -> coslat -> any system."""
    xyz, pos, vc, comp, D = setup(case)
    a, b, lu, tu = case["a"], case["path"][0], case["lu"], case["tu"]
    pro = "prolate" in (a, b, case["prep"])
    case = dict(case, _kw=pro)
    cls = cx.vecs.LonCosLatSphericalVel
    out = conv(mk_rate(a, comp, lu, tu), cls, case, pos)
    check(type(out) is cls, f"class {type(out)}")
    c = ref.from_cart("lonlat", xyz)
    want = ref.vel_from_cart("lonlat", c, vc)
    want[..., 0] *= np.cos(c["lat"])
    got = np.stack(np.broadcast_arrays(*[val(getattr(out, f), un) for f, un in (
        ("d_lon_coslat", f"rad/{tu}"), ("d_lat", f"rad/{tu}"), ("d_distance", f"{lu}/{tu}"))]), -1)
    tol = 1e-6 if pro else ctx.tol(1e-9, 3e-3)
    r = np.linalg.norm(xyz, axis=-1)
    sc = scale_of(vc) / np.minimum(1, r.min())
    close(got, want, tol * sc, f"{a}->loncoslat (at a {case['pform']} {case['prep']})")
    back = conv(out, VEL[b], case, pos)
    check(type(back) is VEL[b], f"class {type(back)}")
    close(cart_rates(back, b, xyz, D, case), vc, tol * sc * max(1, r.max()), f"{a}->loncoslat->{b}")
    same = conv(out, cls, case, pos)
    for f in ("d_lon_coslat", "d_lat", "d_distance"):
        close(val(getattr(same, f), str(getattr(out, f).unit)), np.asarray(getattr(out, f).value, float), 0.0,
              "loncoslat -> loncoslat")
    ctx.nt(scale_of(vc) > 0)
