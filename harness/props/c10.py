"""C10: unit conversion changes the units and never the quantity."""

import unxt
from coordinax.vecs import ToUnitsOptions

from gens import *
from core import facet
from phys import phys, same
import progs

RULE = ("A case is a vector (position, velocity or acceleration of any class, four-vector, N-dimensional vector "
        "or collection) with its own unit per component, and a target (unit system, mapping of dimensions, "
        "consistent units), in method or function form; or one operation of the library with its inputs expressed "
        "in two different sets of units. Non-trivial: some unit changes and the value is not zero.")
ASSUMPTIONS = ["Astropy's unit table is the oracle for conversion factors",
               "unit names given as one string for a unit system raise (not claimed)"]

UL, UT, UA = ["kpc", "km", "pc", "m", "AU"], ["Myr", "s", "yr"], ["rad", "deg", "arcsec"]


@st.composite
def conv_case(draw):
    what = draw(st.sampled_from(["pos", "pos", "vel", "vel", "acc", "fv", "nd", "space"]))
    rep = draw(st.sampled_from(REPS3 if what in ("fv", "space") else list(POS)))
    shape = draw(st.sampled_from(SHAPES))
    dim = ref.DIM[rep]
    n = draw(st.integers(1, 5)) if what == "nd" else dim
    xyz = draw(st.lists(st.lists(generic_coord(), min_size=n, max_size=n), min_size=size(shape), max_size=size(shape)))
    return {"what": what, "rep": rep, "shape": shape, "x": xyz, "order": draw(st.sampled_from([0, 1, 2])),
            "units": [[draw(st.sampled_from(UL)), draw(st.sampled_from(UT)), draw(st.sampled_from(UA))]
                      for _ in range(max(3, n))],
            "kind": draw(st.sampled_from(["usys", "usys", "named", "map", "map", "consistent"])),
            "keys": draw(st.sampled_from(["str", "dim"])), "vals": draw(st.sampled_from(["str", "unit"])),
            "to": [draw(st.sampled_from(UL)), draw(st.sampled_from(UT)), draw(st.sampled_from(UA))],
            "named": draw(st.sampled_from(["galactic", "si", "solarsystem"])),
            "form": draw(st.sampled_from(["method", "func"]))}


def unit_for(kind, order, lu, tu, au):
    b = {"L": lu, "L2": f"{lu}2"}.get(kind, au)
    return b if not order else f"{b}/{tu}" if order == 1 else f"{b}/{tu}2"


def mixed(rep, order, x, units):
    """A vector with own units per component, from reference components."""
    comps = ref.COMPS[rep]
    if order == 0:
        c = ref.from_cart(rep, x, 0.7)
        kw = {}
        for i, (k, kd) in enumerate(comps.items()):
            un = unit_for(kd, 0, *units[i])
            v = c[k] * usc(kind_unit(kd, "kpc"), un)
            kw[k] = Q(v, un)
        if rep == "prolate":
            kw["Delta"] = Q(0.7 * usc("kpc", units[0][0]), units[0][0])
        return POS[rep](**kw)
    pre, cls = ("d_", VEL) if order == 1 else ("d2_", ACC)
    kw = {}
    for i, (k, kd) in enumerate(comps.items()):
        un = unit_for(kd, order, *units[i])
        kw[pre + k] = Q(x[..., i] * usc(rate_unit(kd, "kpc", "Myr", order), un), un)
    return cls[rep](**kw)


def build(case):
    what, rep, U = case["what"], case["rep"], case["units"]
    x = A(case["x"], case["shape"], len(case["x"][0]))
    if what in ("pos", "vel", "acc"):
        if rep == "radial" and what == "pos":
            x = np.abs(x)
        return mixed(rep, {"pos": 0, "vel": 1, "acc": 2}[what], x, U)
    lu, tu, _ = U[0]
    if what == "fv":
        return cx.FourVector(t=Q(x[..., 0] * usc("Myr", tu), tu), q=mixed(rep, 0, x, U[::-1]),
                             c=Q(2.0 * usc("kpc/Myr", f"{lu}/{tu}"), f"{lu}/{tu}"))
    if what == "nd":
        k = case["order"]
        un, base = unit_for("L", k, lu, tu, "rad"), unit_for("L", k, "kpc", "Myr", "rad")
        q = Q(x * usc(base, un), un)
        V = cx.vecs
        return [V.CartesianPosND, V.CartesianVelND, V.CartesianAccND][k].from_(q)
    return cx.Space(length=mixed(rep, 0, x, U), speed=mixed("sph", 1, x, U[::-1]),
                    acceleration=mixed(rep, 2, x, U))


def leaves(v, path=()):
    from unxt.quantity import AbstractQuantity

    if isinstance(v, cx.Space):
        for k, w in v.items():
            yield from leaves(w, (*path, k))
        return
    for k in v.__dataclass_fields__:
        w = getattr(v, k)
        if isinstance(w, cx.vecs.AbstractVector):
            yield from leaves(w, (*path, k))
        elif isinstance(w, AbstractQuantity):
            yield (*path, k), w


FIXED = {"Delta", "c"}  # parameters, not components


def dim_key(unit):
    return str(apu.Unit(unit).physical_type).split("/")[0]


@facet("C10", "uconvert", conv_case, quick=260, thorough=4000, modes=("x64", "f32"), shards=4, f32_frac=0.15)
def uconvert(case, ctx):
    """Every component gets the requested unit and keeps its physical value."""
    if ctx.f32 and any(u_ in ("km", "m", "AU") for t in [*case["units"], case["to"]] for u_ in t):
        raise Skip
    if ctx.f32 and case["kind"] == "named":
        raise Skip
    vec = build(case)
    lu, tu, au = case["to"]
    before = {p: (np.asarray(q.value).copy(), str(q.unit)) for p, q in leaves(vec)}
    kind = case["kind"]
    if kind == "consistent":
        arg, first = ToUnitsOptions.consistent, {}
    elif kind == "map":
        arg = {}
        for _, q in leaves(vec):
            ptype = apu.Unit(str(q.unit)).physical_type
            cand = {"length": lu, "area": f"{lu}2", "angle": au, "time": tu}
            un = None
            for order in (0, 1, 2):
                for kd in ("L", "L2", "A"):
                    if apu.Unit(unit_for(kd, order, "kpc", "Myr", "rad")).physical_type == ptype:
                        un = unit_for(kd, order, lu, tu, au)
            un = un or cand[dim_key(str(q.unit))]
            key = dim_key(un) if case["keys"] == "str" and ptype != "unknown" else ptype
            arg[key] = un if case["vals"] == "str" else apu.Unit(un)
    elif kind == "named":
        arg = getattr(unxt.unitsystems, case["named"])
        lu, tu, au = {"galactic": ("kpc", "Myr", "rad"), "si": ("m", "s", "rad"), "solarsystem": ("AU", "yr", "rad")}[case["named"]]
    else:
        arg = unxt.unitsystem(lu, tu, "Msun", au)
    out = vec.uconvert(arg) if case["form"] == "method" else unxt.uconvert(arg, vec)
    check(type(out) is type(vec), f"class changed to {type(out).__name__}")
    o = dict(leaves(out))
    check(set(o) == set(before), f"fields changed: {sorted(o)} {sorted(before)}")
    src = dict(leaves(vec))
    seen: dict = {}
    for p, q in o.items():
        was = apu.Unit(before[p][1])
        if p[-1] in FIXED:
            want = was
        elif kind == "consistent":
            want = seen.setdefault((p[:-1], was.physical_type if was.physical_type != "unknown" else was), was)
        else:
            want = None
            for order in (0, 1, 2):
                for kd in ("L", "L2", "A"):
                    if apu.Unit(unit_for(kd, order, "kpc", "Myr", "rad")).is_equivalent(was):
                        want = apu.Unit(unit_for(kd, order, lu, tu, au))
            want = want if want is not None else apu.Unit(tu)
        got = apu.Unit(str(q.unit))
        check(got == want or abs(got.to(want) - 1) < 1e-12, f"{p} is in {got}, expected {want}")
        check(np.array_equal(np.asarray(src[p].value), before[p][0]), f"{p} of the source changed")
        check(type(q).__name__ == type(src[p]).__name__, f"{p} became {type(q).__name__}")
    same(out, vec, ctx.tol(1e-13, 2e-6), f"uconvert {kind}", floor=1e-30, cart=False)
    again = out.uconvert(arg)
    same(again, out, ctx.tol(1e-15, 1e-6), "a second uconvert", floor=1e-30, cart=False)
    ctx.nt(any(str(o[p].unit) != before[p][1] for p in o))
    ctx.label(f"{case['what']} {kind}")


UN = [{"lu": a, "tu": b, "au": c} for a, b, c in
      [("kpc", "Myr", "rad"), ("km", "s", "deg"), ("AU", "yr", "rad"), ("m", "Myr", "deg"), ("pc", "s", "rad")]]


def unit_case():
    return st.builds(lambda c, i, j, k: dict(c, u1=UN[i], u2=UN[j], uo=UN[k]), progs.program(),
                     st.integers(0, 0), st.integers(1, 4), st.integers(0, 4))


@facet("C10", "unit_free", unit_case, quick=260, thorough=4000, modes=("x64",), shards=6)
def unit_free(case, ctx):
    """An operation has the same physical result whatever units its arguments are in."""
    a = progs.fn(case, un=case["u1"])(*progs.inputs(case, case["u1"]))
    b = progs.fn(case, un=case["uo"])(*progs.inputs(case, case["u2"]))
    tol = 1e-6 if case["op"] == "prolate" else 1e-9
    big = same(b, a, tol, f"{case['op']} in {case['u2']} (operator in {case['uo']})",
               floor=max(1.0, scale_of(case["xyz"], case["xyz2"], case["v"], case["acc"])))
    ctx.nt(big > 0)
    ctx.label(case["op"])
