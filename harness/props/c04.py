"""C04: dimension-changing conversions keep what is shared, fill what is asked, and warn."""

import warnings

from gens import *
from core import facet
from props.c01 import native, build, radius, azim_deg

RULE = ("A case is a batch of 1-D, 2-D or 3-D positions and a conversion to another "
        "dimensionality (with drawn fill-in coordinates when the dimension goes up), or a "
        "same-dimension conversion that must not warn. Non-trivial: the dimension changes.")

SRC3 = ["cart3", "cyl", "sph", "math", "prolate"]
Irr = cx.vecs.IrreversibleDimensionChange


def rep_and_warn(fn):
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        out = fn()
    return out, [w for w in rec if issubclass(w.category, Irr)]


@facet("C04", "down3", lambda: native(SRC3, ["cart2", "polar", "cart1", "radial"]), quick=140, thorough=2500,
       modes=("x64", "f32"), shards=2)
def down3(case, ctx):
    """3-D -> 2-D / 1-D: the xy projection, the x coordinate or the radius; and a warning."""
    vec, xyz = build(case, ctx)
    a, b, lu = case["a"], case["b"], case["lu"]
    down(vec, xyz, a, b, lu, case, ctx)


@facet("C04", "down2", lambda: native(["cart2", "polar"], ["cart1", "radial"]), quick=50, thorough=800,
       modes=("x64", "f32"))
def down2(case, ctx):
    """2-D -> 1-D: x or the radius; and a warning."""
    vec, xyz = build(case, ctx)
    down(vec, xyz, case["a"], case["b"], case["lu"], case, ctx)


def down(vec, xyz, a, b, lu, case, ctx):
    if case["form"] == "method":
        out, rec = rep_and_warn(lambda: vec.represent_as(POS[b]))
    else:
        out, rec = rep_and_warn(lambda: cx.represent_as(vec, POS[b]))
    check(type(out) is POS[b], f"class {type(out)}")
    check(len(rec) >= 1, f"{a}->{b}: no IrreversibleDimensionChange warning")
    check(tuple(out.shape) == tuple(case["shape"]), f"shape {out.shape}")
    sc = scale_of(xyz, case.get("Delta") or 0)
    tol = ctx.tol(1e-11, 1e-4) * sc if a != "prolate" else ctx.tol(3e-7, 5e-3) * sc
    if b in ("cart2", "polar"):
        close(xyz_of(out, lu, b), xyz[..., :2], tol, f"{a}->{b}")
    elif b == "cart1":
        close(val(out.x, lu), xyz[..., 0], tol, f"{a}->{b}")
    else:  # the source's own radius
        want = np.hypot(xyz[..., 0], xyz[..., 1]) if a == "cyl" else np.linalg.norm(xyz, axis=-1)
        close(val(out.r, lu), want, tol, f"{a}->{b}")
    ctx.nt(sc > 0)


UP = {  # (source, target) -> fill-in keywords
    ("cart1", "cart2"): ["y"], ("cart1", "polar"): ["phi"], ("cart1", "cart3"): ["y", "z"],
    ("cart1", "sph"): ["theta", "phi"], ("cart1", "math"): ["theta", "phi"], ("cart1", "cyl"): ["phi", "z"],
    ("radial", "cart2"): ["y"], ("radial", "polar"): ["phi"], ("radial", "cart3"): ["y", "z"],
    ("radial", "sph"): ["theta", "phi"], ("radial", "math"): ["theta", "phi"], ("radial", "cyl"): ["phi", "z"],
    ("cart2", "cart3"): ["z"], ("cart2", "cyl"): ["z"], ("cart2", "sph"): ["z"], ("cart2", "math"): ["z"],
    ("polar", "cart3"): ["z"], ("polar", "cyl"): ["z"], ("polar", "sph"): ["theta"], ("polar", "math"): ["phi"],
}


@st.composite
def up_case(draw):
    a, b = draw(st.sampled_from(sorted(UP)))
    shape = draw(st.sampled_from(SHAPES))
    neg_ok = (a, b) in (("cart1", "cart2"), ("cart1", "cart3"), ("cart2", "cart3")) or a == "cart2"
    c = coord() if neg_ok else radius()
    src = {k: draw(arr(shape, azim_deg() if kd == "A" else c if k != "r" else radius()))
           for k, kd in ref.COMPS[a].items()}
    kws = UP[a, b]
    fill = {}
    for k in kws:
        if draw(st.booleans()):
            polar = (b == "sph" and k == "theta") or (b == "math" and k == "phi")
            fill[k] = draw(fl(0, 180) if polar else fl(0, 359) if k in ("theta", "phi") else coord())
    return {"a": a, "b": b, "shape": shape, "src": src, "fill": fill,
            "lu": draw(st.sampled_from(LUNITS)), "fu": draw(st.sampled_from(LUNITS)),
            "au": draw(st.sampled_from(["rad", "deg"])), "form": draw(st.sampled_from(["method", "func"]))}


@facet("C04", "up", up_case, quick=200, thorough=3000, modes=("x64", "f32"), shards=2)
def up(case, ctx):
    """1-D/2-D -> higher: shared components kept, the fill-in keywords (default zero) used, no
    warning, and converting back returns the original."""
    a, b, lu, fu, au, shape = (case[k] for k in ("a", "b", "lu", "fu", "au", "shape"))
    kw, src = {}, {}
    for k, kd in ref.COMPS[a].items():
        x = A(case["src"][k], shape)
        src[k] = np.deg2rad(x) if kd == "A" else x
        kw[k] = Q(x * usc("deg", au), au) if kd == "A" else Q(x, lu)
    vec = POS[a](**kw)
    fill, fkw = {}, {}
    for k in UP[a, b]:
        v = case["fill"].get(k)
        isang = k in ("theta", "phi")
        fill[k] = np.deg2rad(v or 0.0) if isang else (v or 0.0)
        if v is not None:
            # lengths in another unit: the value is the number in `lu`
            fkw[k] = Q(v * usc("deg", au), au) if isang else Q(v * usc(lu, fu), fu)
    if case["form"] == "method":
        out, rec = rep_and_warn(lambda: vec.represent_as(POS[b], **fkw))
    else:
        out, rec = rep_and_warn(lambda: cx.represent_as(vec, POS[b], **fkw))
    check(type(out) is POS[b], f"class {type(out)}")
    check(not rec, f"{a}->{b} warned of an irreversible change")
    check(tuple(out.shape) == tuple(shape), f"shape {out.shape} != {shape}")
    z = np.zeros(tuple(shape))
    sc = scale_of(*[v for k, v in src.items() if k != "phi"], *[fill[k] for k in fill if k in "yz"])
    tol = ctx.tol(1e-10, 2e-3) * sc
    # expected native components of the target
    if b in ("cart2", "cart3"):
        p = ref.to_cart(a, src)
        want = [p[..., i] for i in range(p.shape[-1])] + [z + fill[k] for k in ("y", "z") if k in fill]
        close(np.stack(np.broadcast_arrays(*[val(getattr(out, k), lu) for k in ref.COMPS[b]]), -1),
              np.stack(want, -1), tol, f"{a}->{b}")
    else:
        if a in ("cart1", "radial", "polar"):
            R = src.get("r", src.get("x"))
            c = {"r": R, "rho": R, **{k: z + v for k, v in fill.items()}}
            if a == "polar":
                c["theta" if b == "math" else "phi"] = src["phi"]
            c = {k: c[k] for k in ref.COMPS[b]}
            want = ref.to_cart(b, c)
        else:  # cart2 -> cyl / sph / math with z
            want = np.stack([src["x"], src["y"], z + fill["z"]], -1)
        close(xyz_of(out, lu, b), want, tol, f"{a}->{b} {fkw}")
        if a in ("cart1", "radial", "polar"):
            for k in ("r", "rho"):
                if k in ref.COMPS[b]:
                    close(val(getattr(out, k), lu) + z, R, tol, f"{a}->{b} radius")
    # and back
    back, rec = rep_and_warn(lambda: out.represent_as(POS[a]))
    if ref.DIM[b] > ref.DIM[a]:
        check(len(rec) >= 1, f"{b}->{a}: no warning")
    if (b in ("cart2", "cart3") and a in ("cart1", "cart2")) or (b == "cyl" and a in ("polar", "radial", "cart2")) \
            or (b == "polar" and a == "radial"):
        close(xyz_of(back, lu, a), ref.to_cart(a, src), tol, f"{a}->{b}->{a}")
    ctx.nt(bool(case["fill"]) or sc > 0)
    ctx.label(f"{a}->{b}")


@facet("C04", "same_dim_silent", lambda: st.one_of(native(REPS3, REPS3P), native(REPS2, REPS2)), quick=60,
       thorough=800, modes=("x64",))
def same_dim_silent(case, ctx):
    """A conversion within one dimensionality raises no such warning."""
    vec, _ = build(case, ctx)
    kw = {"Delta": Q(case["Delta"], case["lu"])} if case["b"] == "prolate" else {}
    _, rec = rep_and_warn(lambda: vec.represent_as(POS[case["b"]], **kw))
    check(not rec, f"{case['a']}->{case['b']} warned: {rec}")
    ctx.nt(case["a"] != case["b"])
