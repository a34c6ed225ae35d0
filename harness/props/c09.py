"""C09: norms, normalisation and equality do not depend on the representation."""

import jax
import quaxed.numpy as jnp
import unxt

from gens import *
from core import facet
from props.c05 import regular, REPS

RULE = ("A case is a batch of positions, velocities or accelerations of any class with units per "
        "component. Norm cases are non-trivial if the vector is not zero; equality cases if at least "
        "one component of one element differs (by a clear margin) or the units differ.")
ASSUMPTIONS = ["Euclidean norm of harness/ref.py Cartesian components is the oracle",
               "equality of values that differ only by the rounding of a unit conversion is not demanded"]


@st.composite
def pos_case(draw):
    dim = draw(st.sampled_from([3, 3, 3, 2, 1]))
    rep = draw(st.sampled_from(REPS[dim] if os.environ.get("VERIF_MODE") != "f32" or dim != 3 else REPS3))
    shape = draw(st.sampled_from(SHAPES))
    xyz = draw(regular(shape, dim, strict=True) if rep == "prolate" else points(shape, dim))
    if rep == "radial":
        xyz = [[abs(c) for c in p] for p in xyz]
    case = {"rep": rep, "shape": shape, "xyz": xyz, "lu": draw(st.sampled_from(lunits())),
            "au": draw(st.sampled_from(AUNITS)), "form": draw(st.sampled_from(["norm", "abs", "jnp"]))}
    if rep == "prolate":
        case["Delta"] = draw(fl(0.3, 4))
    if CARTOF[dim] == rep:
        case["mix"] = [draw(st.sampled_from(lunits())) for _ in range(dim)]
    return case


def make(case):
    rep, lu = case["rep"], case["lu"]
    f = usc("kpc", lu)
    xyz = A(case["xyz"], case["shape"], len(case["xyz"][0]))
    if case.get("mix"):
        return POS[rep](**{k: Q(xyz[..., i] * usc("kpc", un), un)
                           for i, (k, un) in enumerate(zip("xyz", case["mix"]))}), xyz
    D = case["Delta"] * f if "Delta" in case else None
    return pos_from_xyz(rep, xyz * f, lu, case["au"], D), xyz


@facet("C09", "pos_norm", pos_case, quick=180, thorough=3000, modes=("x64", "f32"), shards=4, f32_frac=0.2)
def pos_norm(case, ctx):
    """norm(), abs() and the array-API vector norm are the Euclidean length."""
    p, xyz = make(case)
    n = {"norm": lambda: p.norm(), "abs": lambda: abs(p),
         "jnp": lambda: jnp.linalg.vector_norm(p, axis=-1)}[case["form"]]()
    want = np.linalg.norm(xyz, axis=-1)
    close(val(n, "kpc"), want, ctx.tol(1e-9, 5e-5) * max(1.0, scale_of(xyz)), f"{case['form']} of {case['rep']}")
    ctx.nt(scale_of(want) > 0)
    ctx.label(case["rep"])


@st.composite
def rate_case(draw):
    dim = draw(st.sampled_from([3, 3, 3, 2, 1]))
    f32 = os.environ.get("VERIF_MODE") == "f32"
    reps = REPS3 if f32 and dim == 3 else REPS[dim]
    rep, prep = draw(st.sampled_from(reps)), draw(st.sampled_from(reps))
    shape = draw(st.sampled_from(SHAPES))
    pro = "prolate" in (rep, prep)
    case = {"rep": rep, "prep": prep, "shape": shape, "order": draw(st.sampled_from([1, 2])),
            "xyz": draw(regular(shape, dim, strict=pro)), "v": draw(points(shape, dim)),
            "lu": draw(st.sampled_from(["kpc"] if f32 else LUNITS)),
            "tu": draw(st.sampled_from(["Myr"] if f32 else TUNITS))}
    if pro:
        case["prep"] = "prolate" if rep == "prolate" else prep  # the norm takes no focal length
        case["Delta"] = draw(fl(0.3, 4))
    return case


@facet("C09", "rate_norm", rate_case, quick=150, thorough=2500, modes=("x64", "f32"), shards=4, f32_frac=0.2)
def rate_norm(case, ctx):
    """The norm of a velocity or acceleration is the length of its Cartesian components."""
    rep, shape, lu, tu, order = (case[k] for k in ("rep", "shape", "lu", "tu", "order"))
    xyz = A(case["xyz"], shape, len(case["xyz"][0]))
    vc = A(case["v"], shape, xyz.shape[-1])
    D = case.get("Delta")
    comp = ref.vel_from_cart(rep, ref.from_cart(rep, xyz, D), vc, D)
    vec = mk_rate(rep, comp, lu, tu, order)
    pos = pos_from_xyz(case["prep"], xyz, lu, "rad", D)
    cart = rep.startswith("cart")
    if order == 1:
        n = vec.norm() if cart else vec.norm(pos)
        if cart:
            close(val(abs(vec), f"{lu}/{tu}"), np.linalg.norm(vc, axis=-1), ctx.tol(1e-9, 1e-4) * max(1, scale_of(vc)), "abs(velocity)")
    else:
        vel = mk_rate(rep if D else CARTOF[xyz.shape[-1]], np.ones_like(vc), lu, tu)
        n = vec.norm() if cart else vec.norm(vel, pos)
    un = f"{lu}/{tu}" if order == 1 else f"{lu}/{tu}2"
    tol = ctx.tol(1e-6 if "prolate" in (rep, case["prep"]) else 1e-9, 3e-3)
    close(val(n, un), np.linalg.norm(vc, axis=-1), tol * max(1.0, scale_of(vc)), f"norm of {rep} order {order}")
    ctx.nt(scale_of(vc) > 0)
    ctx.label(rep)


@st.composite
def unit_case(draw):
    n = draw(st.integers(1, 5))
    shape = draw(st.sampled_from(SHAPES))
    kind = draw(st.sampled_from(["array", "quantity", "quantity", "vector", "vector"]))
    if kind == "vector":
        n = 3
    elem = st.one_of(generic_coord(), st.just(0.0))
    pts = draw(st.lists(st.lists(elem, min_size=n, max_size=n).filter(any),
                        min_size=size(shape), max_size=size(shape)))
    return {"kind": kind, "n": n, "shape": shape, "x": pts, "unit": draw(st.sampled_from(["kpc", "km/s", "kg"])),
            "mix": [draw(st.sampled_from(lunits())) for _ in range(3)]}


@facet("C09", "normalize", unit_case, quick=100, thorough=1500, modes=("x64", "f32"), shards=2, f32_frac=0.3)
def normalize(case, ctx):
    """normalize_vector gives the dimensionless unit vector along the input."""
    x = A(case["x"], case["shape"], case["n"])
    want = x / np.linalg.norm(x, axis=-1, keepdims=True)
    nv = cx.vecs.normalize_vector
    if case["kind"] == "array":
        got = np.asarray(nv(jax.numpy.asarray(x)))
    elif case["kind"] == "quantity":
        got = val(nv(Q(x, case["unit"])), "")
    else:
        v = cx.CartesianPos3D(**{k: Q(x[..., i] * usc("kpc", un), un) for i, (k, un) in enumerate(zip("xyz", case["mix"]))})
        o = nv(v)
        got = np.stack([val(getattr(o, k), "") for k in "xyz"], -1)
    close(got, want, ctx.tol(1e-12, 1e-5), f"normalize_vector of {case['kind']}")
    ctx.nt()


@facet("C09", "metric", lambda: st.tuples(pos_case(), pos_case(), fl(-4, 4)).filter(
    lambda t: ref.DIM[t[0]["rep"]] == ref.DIM[t[1]["rep"]] and ref.DIM[t[0]["rep"]] > 1
    and "prolate" not in (t[0]["rep"], t[1]["rep"])).map(
    lambda t: {"a": t[0], "b": dict(t[1], shape=[], xyz=t[1]["xyz"][:1]), "s": t[2]}),
    quick=50, thorough=800, modes=("x64",), shards=4)
def metric(case, ctx):
    """Homogeneity, triangle inequality and symmetry of the distance, by the code alone."""
    (a, xa), (b, xb) = make(case["a"]), make(case["b"])
    s = case["s"]
    na, nb = val(a.norm(), "kpc"), val(b.norm(), "kpc")
    tol = 1e-6 * max(1.0, scale_of(xa, xb)) * max(1.0, abs(s))
    close(val((s * a).norm(), "kpc"), abs(s) * na, tol, "|s a| != |s||a|")
    d1, d2 = val((a - b).norm(), "kpc"), val((b - a).norm(), "kpc")
    close(d1, d2, tol, "|a-b| != |b-a|")
    check(np.all(val((a + b).norm(), "kpc") <= na + nb + tol), "triangle inequality fails")
    close(d1, np.linalg.norm(xa - xb, axis=-1), tol, "|a-b|")
    ctx.nt(scale_of(xa) > 0 and scale_of(xb) > 0)


# ---------------------------------------------------------------- equality

OTHER = {"kpc": "pc", "pc": "kpc", "km": "m", "m": "km", "AU": "km", "rad": "deg", "deg": "rad", "arcmin": "deg",
         "Myr": "yr", "s": "Myr", "yr": "s"}


@st.composite
def eq_case(draw):
    kind = draw(st.sampled_from([0, 0, 1, 2]))
    rep = draw(st.sampled_from(list(POS)))
    shape = draw(st.sampled_from(SHAPES))
    comps = ref.COMPS[rep]
    n = size(shape)
    vals = [[draw(st.integers(1, 8)) / 8 for _ in comps] for _ in range(n)]
    if rep == "prolate" and kind == 0:
        vals = [[1.0 + v[0], v[1] / 4, v[2]] for v in vals]  # |nu| <= Delta^2 always
    change = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, len(comps) - 1),
                                     st.sampled_from([0.125, -0.0625])), max_size=2))
    return {"kind": kind, "rep": rep, "shape": shape, "v": vals, "change": [list(c) for c in change],
            "lu": draw(st.sampled_from(["kpc", "pc", "km", "m"])), "tu": draw(st.sampled_from(TUNITS)),
            "au": draw(st.sampled_from(["rad", "deg"])),
            "bcast": draw(st.booleans()), "other_units": draw(st.sampled_from([None, None, 0, 1])),
            "delta2": draw(st.sampled_from([0.75, 0.75, 0.75, 0.625])),
            "form": draw(st.sampled_from(["==", "jnp"]))}


@facet("C09", "equality", eq_case, quick=200, thorough=3000, modes=("x64",), shards=4)
def equality(case, ctx):
    """Equality is element-wise and true exactly where all components are equal quantities."""
    kind, rep, shape = case["kind"], case["rep"], case["shape"]
    comps = ref.COMPS[rep]
    cls = (POS, VEL, ACC)[kind][rep]
    pre = ("", "d_", "d2_")[kind]

    def units(other):
        lu, tu, au = case["lu"], case["tu"], case["au"]
        out = []
        for i, kd in enumerate(comps.values()):
            alt = other is not None and i == other % len(comps)
            l, a = (OTHER[lu], OTHER[au]) if alt else (lu, au)
            b = {"L": l, "L2": f"{l}2"}.get(kd, a)
            out.append(b if not kind else f"{b}/{tu}" if kind == 1 else f"{b}/{tu}2")
        return out

    va = A(case["v"], shape, len(comps))
    vb = va.copy().reshape(-1, len(comps))
    for i, j, d in case["change"]:
        vb[i, j] += d
    vb = vb.reshape(va.shape)
    if case["bcast"] and len(shape):
        vb = vb.reshape(-1, len(comps))[0]

    def build(v, un, D):
        kw = {pre + k: Q(v[..., i], un[i]) for i, k in enumerate(comps)}
        if kind == 0 and rep == "prolate":
            kw["Delta"] = Q(D, case["lu"])
        return cls(**kw)

    ua, ub = units(None), units(case["other_units"])
    wb = vb.copy()
    exact = np.ones(vb.shape[:-1], dtype=bool)
    for i in range(len(comps)):
        if ua[i] != ub[i]:
            wb[..., i] = vb[..., i] * usc(ua[i], ub[i])
            back = np.asarray(unxt.uconvert(ua[i], Q(wb[..., i], ub[i])).value)
            fwd = np.asarray(unxt.uconvert(ub[i], Q(vb[..., i], ua[i])).value)
            exact &= (back == vb[..., i]) & (fwd == wb[..., i])
    try:
        b = build(wb, ub, case["delta2"])
    except Exception:  # a value just outside the range after a change
        if kind == 0:
            raise Skip from None
        raise
    a = build(va, ua, 0.75)
    got = np.asarray(a == b if case["form"] == "==" or kind else jnp.equal(a, b))
    same = np.all(np.abs(va - vb) < 1e-9, axis=-1)
    if kind == 0 and rep == "prolate":
        same &= case["delta2"] == 0.75
    exact = np.broadcast_to(exact, same.shape)
    check(got.shape == same.shape, f"shape {got.shape} != {same.shape}")
    check(not np.any(got & ~same), f"unequal {cls.__name__} compare equal: {got.tolist()} != {same.tolist()}")
    check(not np.any(~got & same & exact), f"equal {cls.__name__} compare unequal: {got.tolist()} != {same.tolist()}")
    ctx.nt(not np.all(same) or ua != ub)
    ctx.label(f"{'eq' if np.all(same) else 'ne'} {'mixed' if ua != ub else 'same'} units")


@st.composite
def attr_eq(draw):
    shape = draw(st.sampled_from([[], [3], [2, 2]]))
    ts = [draw(st.integers(0, 4)) / 4 for _ in range(size(shape))]
    return {"kind": draw(st.sampled_from(["prolate", "fv"])), "shape": shape, "v": ts,
            "change": draw(st.sampled_from([0, 0, 1])), "at": draw(st.integers(0, 8)),
            "A": draw(st.sampled_from([0.5, 1.0, 2.0])), "B": draw(st.sampled_from([0.5, 1.0, 2.0])),
            "rep": draw(st.sampled_from(REPS3)),
            "form": draw(st.sampled_from(["==", "jnp"]))}


@facet("C09", "attribute_equality", attr_eq, quick=48, thorough=600, modes=("x64",), shards=2)
def attribute_equality(case, ctx):
    """Vectors with the same components and another focal length or speed of light are not equal."""
    shape, v = case["shape"], A(case["v"], case["shape"])
    w = v.reshape(-1).copy()
    if case["change"]:
        w[case["at"] % len(w)] += 0.5
    w = w.reshape(v.shape)
    B = case["B"]

    def build(x, a):
        if case["kind"] == "prolate":
            return cx.vecs.ProlateSpheroidalPos(mu=Q(5 + x, "kpc2"), nu=Q(0.1 * x, "kpc2"), phi=Q(x, "rad"), Delta=Q(a, "kpc"))
        q = pos_from_xyz(case["rep"], np.stack([1 + x, 2 - x, 0.5 + x], -1))
        return cx.FourVector(t=Q(x, "Myr"), q=q, c=Q(a, "kpc/Myr"))

    a, b = build(v, case["A"]), build(w, B)
    got = np.asarray(a == b if case["form"] == "==" or case["kind"] == "fv" else jnp.equal(a, b))
    want = (v == w) & (case["A"] == B)
    check(got.shape == want.shape or got.shape == (), f"shape {got.shape}")
    check(np.array_equal(np.broadcast_to(got, want.shape), want),
          f"{case['kind']} with attributes {case['A']}, {B}: == gives {got.tolist()}, expected {want.tolist()}")
    ctx.nt(not want.all())
    ctx.label(case["kind"])


@st.composite
def xeq_case(draw):
    dim = draw(st.sampled_from([3, 3, 2]))
    ra, rb = draw(st.sampled_from(REPS[dim][:5])), draw(st.sampled_from(REPS[dim][:5]))
    shape = draw(st.sampled_from([[], [3]]))
    return {"a": ra, "b": rb, "shape": shape, "xyz": draw(regular(shape, dim)),
            "move": draw(st.lists(st.sampled_from([0.0, 0.5]), min_size=3, max_size=3))}


@facet("C09", "cross_equality", xeq_case, quick=60, thorough=800, modes=("x64",), shards=2)
def cross_equality(case, ctx):
    """Positions of different systems that are different points never compare equal."""
    xyz = A(case["xyz"], case["shape"], len(case["xyz"][0]))
    mv = np.array(case["move"][: size(case["shape"])]).reshape(case["shape"] + [1])
    a, b = pos_from_xyz(case["a"], xyz), pos_from_xyz(case["b"], xyz * (1 + mv))
    got = np.asarray(a == b)
    moved = mv[..., 0] > 0
    check(got.shape == moved.shape, f"shape {got.shape}")
    check(not np.any(got & moved), f"different points compare equal: {got.tolist()}")
    if case["a"] == case["b"]:
        check(not np.any(~got & ~moved), f"the same vector compares unequal: {got.tolist()}")
    check((a == 5) is False or (a == 5) is NotImplemented, "a position equals a number")
    ctx.nt(bool(np.any(moved)))
