"""C03: lenient spherical construction denotes the point the raw numbers denote."""

from gens import *
from core import facet
from props.c01 import kinds
from props.c02 import ranges_ok

RULE = ("A case is a batch of (r, polar/latitude, azimuth) triples with arbitrary signs and "
        "angles over several turns, constructed by keyword through from_. Non-trivial: at "
        "least one radius negative or one polar angle / latitude outside its range.")


def ang(lo, hi):
    return st.one_of(fl(lo, hi), fl(lo, hi), st.sampled_from(
        [float(x) for x in range(-720, 721, 90) if lo <= x <= hi]))


@st.composite
def lenient_case(draw):
    rep = draw(st.sampled_from(["sph", "math", "lonlat"]))
    shape = draw(st.sampled_from(SHAPES))
    return {"rep": rep, "shape": shape, "lu": draw(st.sampled_from(LUNITS)),
            "au": draw(st.sampled_from(["deg", "rad"])),
            "r": draw(arr(shape, st.one_of(fl(-9, 9), fl(0, 9)))),
            "pol": draw(arr(shape, ang(-800, 800))),
            "az": draw(arr(shape, ang(-800, 800))),
            "angle": draw(st.booleans()), "dist": draw(st.booleans())}


@facet("C03", "lenient", lenient_case, quick=300, thorough=5000, modes=("x64", "f32"), shards=3)
def lenient(case, ctx):
    """from_(r=, theta=, phi=) / from_(lon=, lat=, distance=) with out-of-range values gives a
    valid vector at the point r * u(angles) with the raw numbers."""
    rep, shape, lu, au = (case[k] for k in ("rep", "shape", "lu", "au"))
    r, pol, az = (A(case[k], shape) for k in ("r", "pol", "az"))
    f = usc("deg", au)
    names = {"sph": ("r", "theta", "phi"), "math": ("r", "phi", "theta"),
             "lonlat": ("distance", "lat", "lon")}[rep]
    mk = Angle if case["angle"] else Q
    rq = Q(r, lu)
    if case["dist"]:
        rq = Distance(np.abs(r), lu)
        r = np.abs(r)
    vec = POS[rep].from_(**{names[0]: rq, names[1]: mk(pol * f, au), names[2]: mk(az * f, au)})
    check(type(vec) is POS[rep], f"class {type(vec)}")
    want = ref.to_cart(rep, {names[0]: r, names[1]: np.deg2rad(pol), names[2]: np.deg2rad(az)})
    sc = scale_of(r)
    close(xyz_of(vec, lu, rep), want, ctx.tol(1e-10, 2e-3) * sc, f"{rep}.from_")
    # ranges (azimuth: equal modulo a turn, checked through the point)
    for k, kd in kinds(rep):
        if kd == "L+":
            check(bool(np.all(val(getattr(vec, k), lu) >= 0)), "negative radius")
    eps = ctx.tol(1e-9, 1e-2)
    if rep == "lonlat":
        check(bool(np.all(np.abs(val(vec.lat, "deg")) <= 90 + eps)), "latitude out of range")
    else:
        t = val(getattr(vec, names[1]), "deg")
        check(bool(np.all((t >= -eps) & (t <= 180 + eps))), "polar angle out of range")
    inside = (pol >= -90) & (pol <= 90) if rep == "lonlat" else (pol >= 0) & (pol <= 180)
    # values already in range are kept
    keep = inside & (r > 0) & (pol < (90 if rep == "lonlat" else 180))
    close(np.where(keep, val(getattr(vec, names[1]), "deg"), 0), np.where(keep, pol, 0),
          ctx.tol(1e-9, 1e-3), "in-range polar angle changed")
    # the result is usable: convert on
    close(xyz_of(vec.represent_as(cx.CartesianPos3D), lu), want, ctx.tol(1e-10, 2e-3) * sc,
          f"{rep}.from_ -> Cartesian")
    ctx.nt(bool(np.any(~inside) or np.any(r < 0)))
