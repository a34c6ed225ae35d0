"""C13: construction and extraction are inverse and lossless."""

import copy
import dataclasses
import pickle

import jax
import jax.tree_util as jtu
from dataclassish import asdict, field_items, field_keys, field_values, replace
from plum import convert
from unxt.quantity import AbstractQuantity, UncheckedQuantity

from coordinax._src.vectors.base import AttrFilter
from gens import *
from core import facet
from phys import same
from progs import fn, inputs, program

RULE = ("A case is a vector class (every position, velocity and acceleration class of 1-3 and N dimensions, "
        "four-vectors, the special classes), component values in random units and batch shapes (components of "
        "different broadcastable shapes), and a constructor or reader; or an operation of the library on vectors. "
        "Non-trivial: at least two distinct non-zero values.")
ASSUMPTIONS = ["the generated numbers are the oracle; unit conversion is Astropy's",
               "stored values may differ in the last place after wrapping of an azimuth"]
V = cx.vecs
CART = {("pos", 1): V.CartesianPos1D, ("pos", 2): V.CartesianPos2D, ("pos", 3): cx.CartesianPos3D,
        ("vel", 1): V.CartesianVel1D, ("vel", 2): V.CartesianVel2D, ("vel", 3): cx.CartesianVel3D,
        ("acc", 1): V.CartesianAcc1D, ("acc", 2): V.CartesianAcc2D, ("acc", 3): V.CartesianAcc3D,
        ("radpos", 1): V.RadialPos, ("radvel", 1): V.RadialVel, ("radacc", 1): V.RadialAcc,
        ("gen", 3): V.CartesianGeneric3D}
UN = {"pos": LUNITS, "vel": ["kpc/Myr", "km/s", "m/s"], "acc": ["kpc/Myr2", "m/s2", "km/(s Myr)"]}
UN |= {"radpos": UN["pos"], "radvel": UN["vel"], "radacc": UN["acc"], "gen": ["km/s", "kpc", "deg"]}
NDC = {"pos": V.CartesianPosND, "vel": V.CartesianVelND, "acc": V.CartesianAccND}


def stored(x, cls):
    """Components of a Cartesian-like vector, last axis, in their own unit (all alike)."""
    vals = list(field_values(x))
    return np.stack(np.broadcast_arrays(*[np.asarray(v.value) for v in vals]), -1), vals[0].unit


@st.composite
def s_array(draw):
    kind, dim = draw(st.sampled_from(sorted(CART)))
    shape = draw(st.sampled_from([[], [1], [3], [2, 3], [3, 1], [2, 2], [4], [2, 1, 3]]))
    nonneg = kind == "radpos"
    e = fl(0, 9) if nonneg else coord()
    return {"kind": kind, "dim": dim, "shape": shape, "vals": draw(points(shape, dim, e)),
            "unit": draw(st.sampled_from(UN[kind])), "form": draw(st.sampled_from(["list", "np", "jnp", "q", "uq", "apy"])),
            "int": draw(st.integers(0, 5)) == 0, "bare": draw(st.booleans()), "abstract": draw(st.booleans()),
            "to": draw(st.sampled_from(["Quantity", "UncheckedQuantity"]))}


@facet("C13", "from_array", s_array, quick=260, thorough=5000, modes=("x64", "f32"), f32_frac=0.2, shards=1)
def from_array(case, ctx):
    """Arrays with a unit and quantities: last axis = components, in order; and back."""
    kind, dim, shape, un = case["kind"], case["dim"], case["shape"], case["unit"]
    a = A(case["vals"], shape, dim)
    if case["int"]:
        a = np.rint(a)
    arr = a[..., 0] if dim == 1 and case["bare"] and (not shape or shape[-1] != 1) else a
    cls = CART[kind, dim]
    fm = case["form"]
    if fm == "list":
        v = cls.from_(arr.tolist(), un)
    elif fm == "np":
        v = cls.from_(arr.astype(int) if case["int"] else arr, un)
    elif fm == "jnp":
        v = cls.from_(jax.numpy.asarray(arr), u.unit(un))
    elif fm == "apy":
        v = cls.from_(arr * apu.Unit(un))
    elif fm == "q" or kind not in ("pos",) or dim == 1:
        v = cls.from_(Q(arr, un))
    else:
        v = cls.from_(UncheckedQuantity(arr, un))
    check(type(v) is cls, f"{type(v)}")
    check(v.shape == tuple(shape), f"shape {v.shape} from array of {arr.shape}")
    got, unit = stored(v, cls)
    close(got, a, ctx.tol(0.0, 1e-6 * max(1, scale_of(a))), f"{cls.__name__}.from_ {fm}")
    check(all(apu.Unit(str(x.unit)) == apu.Unit(un) for x in field_values(v)), f"units {v}")
    if kind == "pos" and dim == 3 and case["abstract"] and fm in ("q",):
        w = V.AbstractPos3D.from_(Q(arr, un))
        check(type(w) is cls and bool(np.all(w == v)), "abstract from_")
    if kind == "gen":
        return
    back = convert(v, {"Quantity": Q, "UncheckedQuantity": UncheckedQuantity}[case["to"]])
    check(type(back).__name__.startswith(case["to"]), f"{type(back)}")
    close(val(back, un), a, ctx.tol(1e-14, 1e-6) * max(1, scale_of(a)), f"convert({cls.__name__}, {case['to']})")
    again = cls.from_(convert(v, Q))
    got2, _ = stored(again, cls)
    close(got2, a, ctx.tol(1e-14, 1e-6) * max(1, scale_of(a)), "from_(convert(v))")
    ctx.nt(len(set(a.ravel().tolist())) > 1)


@st.composite
def s_wrong(draw):
    kind, dim = draw(st.sampled_from([k for k in sorted(CART) if k[1] > 1 and k != ("vel", 3)]))
    n = draw(st.integers(1, 6).filter(lambda n: n != dim))
    shape = draw(st.sampled_from([[], [3], [2], [2, 3], [3, 3]]))
    return {"kind": kind, "dim": dim, "n": n, "shape": shape, "vals": draw(points(shape, n)),
            "unit": draw(st.sampled_from(UN[kind]))}


@facet("C13", "wrong_count", s_wrong, quick=100, thorough=1500)
def wrong_count(case, ctx):
    """An array with the wrong number of components is an error, not a shorter or padded vector."""
    cls = CART[case["kind"], case["dim"]]
    a = A(case["vals"], case["shape"], case["n"])
    try:
        v = cls.from_(Q(a, case["unit"]))
    except Exception:  # noqa: BLE001
        ctx.nt(case["n"] > 1)
        return
    raise Violation(f"{cls.__name__}.from_ of an array of shape {a.shape} gives {v}")


@facet("C13", "kf_vel3_count", None, quick=0, thorough=0, known="KF02", cases=[{"v": [[1., 4.], [2., 5.], [3., 6.]]}])
def kf_vel3_count(case, ctx):
    """Fixed input of known finding KF02."""
    try:
        v = cx.CartesianVel3D.from_(case["v"], "km/s")
    except Exception:  # noqa: BLE001
        return
    raise Violation(f"CartesianVel3D from an array of shape (3, 2) is {v}")


# ----------------------------------------------------------------- mappings, replace, readers

KINDS = ([("pos", r) for r in POS] + [("vel", r) for r in VEL] + [("acc", r) for r in ACC]
         + [("nd", "pos"), ("nd", "vel"), ("nd", "acc"), ("fv", "cart3"), ("fv", "sph"), ("two", "pos"),
            ("two", "vel"), ("two", "acc"), ("loncoslat", ""), ("poincare", ""), ("gen", "")])
RANGE = {"L": (0.2, 5), "A": (0.0, 6.2), "P": (0.0, 3.1), "B": (-1.5, 1.5), "L2": (9.5, 20)}
UK = {"L": LUNITS, "A": AUNITS, "P": AUNITS, "B": AUNITS}


def spec(kind, rep):
    """(class, [(name, units, lo, hi)]) with units whose first is that of lo, hi."""
    if kind == "pos":
        out = []
        for k, kd in ref.COMPS[rep].items():
            if rep == "cart3" or rep.startswith("cart") or k == "z":
                out.append((k, LUNITS, -9, 9))
            else:
                out.append((k, ["kpc2", "pc2"] if kd == "L2" else UK[kd], *RANGE[kd]))
        if rep == "prolate":
            out[1] = ("nu", ["kpc2", "pc2"], -1.9, 1.9)
        return POS[rep], out
    if kind in ("vel", "acc"):
        o = 1 if kind == "vel" else 2
        pre = "d_" if o == 1 else "d2_"
        t = ["Myr", "s"] if o == 1 else ["Myr2", "s2"]
        out = []
        for k, kd in ref.COMPS[rep].items():
            ls = {"L": ["kpc", "km"], "L2": ["kpc2", "km2"]}.get(kd, ["rad", "deg"])
            out.append((pre + k, [f"{a}/{b}" for a in ls for b in t], -9, 9))
        return (VEL if o == 1 else ACC)[rep], out
    if kind == "two":
        cls = {"pos": V.TwoSpherePos, "vel": V.TwoSphereVel, "acc": V.TwoSphereAcc}[rep]
        if rep == "pos":
            return cls, [("theta", AUNITS, 0, 3.1), ("phi", AUNITS, 0, 6.2)]
        pre, us = ("d_", ["rad/Myr", "deg/s"]) if rep == "vel" else ("d2_", ["rad/Myr2", "deg/s2"])
        return cls, [(pre + "theta", us, -9, 9), (pre + "phi", us, -9, 9)]
    if kind == "loncoslat":
        return V.LonCosLatSphericalVel, [("d_lon_coslat", ["rad/Myr", "mas/yr"], -9, 9),
                                         ("d_lat", ["rad/Myr", "mas/yr"], -9, 9), ("d_distance", ["kpc/Myr", "km/s"], -9, 9)]
    if kind == "poincare":
        p = ["kpc rad(1/2) / Myr(1/2)", "km rad(1/2) / s(1/2)"]
        return V.PoincarePolarVector, [("rho", ["kpc", "km"], 0.1, 9), ("pp_phi", p, -9, 9), ("z", ["kpc", "km"], -9, 9),
                                       ("d_rho", ["kpc/Myr", "km/s"], -9, 9),
                                       ("d_pp_phi", p, -9, 9), ("d_z", ["kpc/Myr", "km/s"], -9, 9)]
    if kind == "gen":
        return V.CartesianGeneric3D, [(k, ["kpc", "km/s", "rad"], -9, 9) for k in "xyz"]
    raise KeyError(kind)


DIMS = st.sampled_from([2, 3, 1])


@st.composite
def s_vec(draw):
    kind, rep = draw(st.sampled_from(KINDS))
    shape = draw(st.lists(DIMS, min_size=0, max_size=2))
    case = {"kind": kind, "rep": rep, "shape": shape}

    def sub(s):
        s = [1 if draw(st.integers(0, 3)) == 0 else d for d in s]
        return s[min(draw(st.sampled_from([0, 0, 0, 1, 2])), len(s)):]

    if kind == "nd":
        n = draw(st.integers(1, 5))
        case |= {"n": n, "vals": draw(points(shape, n)), "unit": draw(st.sampled_from(UN[rep]))}
    else:
        prep = "pos" if kind == "fv" else kind
        comps = {}
        for k, us, lo, hi in spec(prep, rep)[1]:
            cs = sub(shape)
            comps[k] = {"s": cs, "v": draw(st.lists(fl(lo, hi), min_size=size(cs), max_size=size(cs))),
                        "u": draw(st.sampled_from(us)), "u0": us[0]}
            if kind == "gen":
                comps[k]["u0"] = comps[k]["u"]
        case["comps"] = comps
        if kind == "fv":
            cs = sub(shape)
            case["t"] = {"s": cs, "v": draw(st.lists(fl(-9, 9), min_size=size(cs), max_size=size(cs))),
                         "u": draw(st.sampled_from(["Myr", "s"])), "u0": "Myr"}
            case["c"] = draw(st.sampled_from([None, 1.0, 2.5]))
    case["i"] = draw(st.integers(0, 7))
    return case


def kwargs(case):
    kind = case["kind"]
    if kind == "nd":
        name = {"pos": "q", "vel": "d_q", "acc": "d2_q"}[case["rep"]]
        return NDC[case["rep"]], {name: Q(A(case["vals"], case["shape"], case["n"]), case["unit"])}

    def mk(c):
        f = usc(c["u0"], c["u"])
        v = A(c["v"], c["s"]) * f
        return Q(v, c["u"])

    cls, _ = spec("pos" if kind == "fv" else kind, case["rep"])
    kw = {k: mk(c) for k, c in case["comps"].items()}
    if kind == "pos" and case["rep"] == "prolate" or kind == "fv" and case["rep"] == "prolate":
        kw["Delta"] = Q(1.4, "kpc")
    if kind == "fv":
        out = {"t": mk(case["t"]), "q": cls(**kw)}
        if case["c"] is not None:
            out["c"] = Q(case["c"], "kpc/Myr")
        return cx.FourVector, out
    return cls, kw


def arrays(x):
    """Arrays of a component; asdict turns nested quantities into mappings."""
    if isinstance(x, dict):
        return [a for k, v in x.items() if k != "unit" for a in arrays(v)]
    return jtu.tree_leaves(x)


AZ = ("phi", "theta", "lon")


def equal_comp(name, got, want, ctx, cls):
    if isinstance(want, cx.vecs.AbstractVector):
        check(type(got) is type(want), f"{type(got)}")
        for k, w in field_items(want):
            equal_comp(k, getattr(got, k), w, ctx, type(want))
        return
    un = str(want.unit)
    check(apu.Unit(str(got.unit)) == apu.Unit(un), f"{cls.__name__}.{name}: unit {got.unit}, given {un}")
    g, w = np.asarray(got.value, float), np.asarray(want.value, float)
    check(g.shape == w.shape, f"{cls.__name__}.{name}: shape {g.shape}, given {w.shape}")
    tol = 0.0 if name not in AZ else ctx.tol(1e-13, 1e-6) * max(1.0, usc("rad", un) * 7)
    if ctx.f32 and name in AZ:  # a float32 angle just below a whole turn may round to it
        turn = usc("deg", un) * 360
        d = np.abs((g - w + turn / 2) % turn - turn / 2)
        check(bool(np.all(d <= tol)), f"{cls.__name__}.{name}: {g.tolist()}, given {w.tolist()}")
        return
    close(g, w, tol, f"{cls.__name__}.{name}")


@facet("C13", "mapping", s_vec, quick=240, thorough=5000, modes=("x64", "f32"), f32_frac=0.2, shards=2)
def mapping(case, ctx):
    """Keywords and mappings in, components and mappings out; replace; copies."""
    cls, kw = kwargs(case)
    v = cls(**kw)
    w = cls.from_(dict(kw))
    for x, what in ((v, "init"), (w, "mapping")):
        check(type(x) is cls, f"{what}: {type(x)}")
        for k, q in kw.items():
            equal_comp(k, getattr(x, k), q, ctx, cls)
    # readers
    keys = tuple(f.name for f in dataclasses.fields(cls))
    d = asdict(v)
    check(tuple(d) == keys and field_keys(v) == keys, f"keys {tuple(d)} {field_keys(v)}")
    for (k, x), y, (k2, z) in zip(d.items(), field_values(v), field_items(v)):
        check(k2 == k, f"field_items {k2} {k}")
        for got in (x, y, z):
            a, b = arrays(got), arrays(getattr(v, k))
            check(all(np.array_equal(p, q) for p, q in zip(a, b)), f"asdict {k}: {got}")
    if "c" not in keys and "Delta" not in keys:
        check(tuple(v.components) == keys, f"components {v.components}")
    dd = asdict(AttrFilter, v)
    check(tuple(dd) == tuple(k for k in keys if k not in ("c", "Delta")), f"filtered {tuple(dd)}")
    shp = np.broadcast_shapes(*[np.shape(x.value) if hasattr(x, "value") else x.shape for k, x in kw.items() if k not in ("c", "Delta")])
    if case["kind"] == "nd":
        shp = shp[:-1]
    check(v.shape == shp, f"shape {v.shape}, components {shp}")
    # rebuild
    items = v.asdict()
    check(tuple(items) == keys and all(items[k] is getattr(v, k) for k in keys), f"asdict() {items}")
    r = cls(**items)
    r2 = cls.from_(items)
    for k in keys:
        for x in (r, r2):
            a, b = jtu.tree_leaves(getattr(x, k)), jtu.tree_leaves(getattr(v, k))
            check(all(np.array_equal(p, q) for p, q in zip(a, b)), f"rebuilt {k}: {getattr(x, k)} {getattr(v, k)}")
    # replace
    name = list(kw)[case["i"] % len(kw)]
    if name != "Delta" and case["kind"] != "nd":
        other = jtu.tree_map(lambda x: x * 0.5, getattr(v, name)) if name not in ("mu",) else getattr(v, name) * 1.5
        for rep in (replace, dataclasses.replace):
            n = rep(v, **{name: other})
            check(type(n) is cls, f"{type(n)}")
            for k in keys:
                if k != name:
                    a, b = jtu.tree_leaves(getattr(n, k)), jtu.tree_leaves(getattr(v, k))
                    check(all(np.array_equal(p, q) for p, q in zip(a, b)), f"replace({name}) changed {k}")
            same(getattr(n, name), other, ctx.tol(1e-13, 1e-6), f"replaced {name}", cart=False)
            for k, q in kw.items():
                equal_comp(k, getattr(v, k), q, ctx, cls)
    # copies
    for y in (copy.copy(v), copy.deepcopy(v), pickle.loads(pickle.dumps(v)),
              jtu.tree_unflatten(jtu.tree_structure(v), jtu.tree_leaves(v)), jtu.tree_map(lambda x: x, v)):
        check(type(y) is cls and repr(jtu.tree_structure(y)) == repr(jtu.tree_structure(v)), "copy: structure")
        check(all(np.array_equal(a, b) for a, b in zip(jtu.tree_leaves(y), jtu.tree_leaves(v))), "copy: leaves")
    # immutable
    try:
        setattr(v, list(kw)[0], None)
        raise Violation("a component can be overwritten")
    except (dataclasses.FrozenInstanceError, AttributeError):
        pass
    # identity
    check(cls.from_(v) is v, "from_(v) is not v")
    vals = [x for c in case.get("comps", {}).values() for x in c["v"]] or [x for p in case["vals"] for x in p]
    ctx.nt(len(set(vals)) > 1)
    ctx.label(case["kind"])


@st.composite
def s_other(draw):
    k1 = draw(st.sampled_from([k for k in KINDS if k[0] in ("pos", "vel", "acc")]))
    k2 = draw(st.sampled_from([k for k in KINDS if k[0] == k1[0] and k != k1]))
    return {"from": k1, "to": k2, "x": draw(st.lists(fl(0.6, 1.3), min_size=3, max_size=3))}


@facet("C13", "other_class", s_other, quick=100, thorough=1000)
def other_class(case, ctx):
    """A concrete class never returns a vector of another class."""
    (kind, r1), (_, r2) = case["from"], case["to"]
    cls, cs = spec(kind, r1)
    kw = {k: Q(case["x"][i] * (10 if us[0] == "kpc2" and i == 0 else 1), us[0]) for i, (k, us, _, _) in enumerate(cs)}
    if r1 == "prolate" and kind == "pos":
        kw["Delta"] = Q(1.4, "kpc")
    v = cls(**kw)
    to = spec(kind, r2)[0]
    ctx.nt()
    try:
        w = to.from_(v)
    except Exception:  # noqa: BLE001
        return
    check(type(w) is to, f"{to.__name__}.from_({cls.__name__}) is a {type(w).__name__}")


@st.composite
def s_immut(draw):
    return {"prog": draw(program())}


def snapshot(x):
    return [(np.array(leaf), leaf.dtype) for leaf in jtu.tree_leaves(x)], repr(jtu.tree_structure(x))


UN0 = {"lu": "kpc", "tu": "Myr", "au": "rad"}


@facet("C13", "unmodified", s_immut, quick=120, thorough=2500, shards=1)
def unmodified(case, ctx):
    """No operation of the library changes the vectors it is given."""
    p = case["prog"]
    args = inputs(p, UN0)
    before = [snapshot(a) for a in args]
    out = fn(p, None, UN0)(*args)
    first = snapshot(out)
    for a, (leaves, tree) in zip(args, before):
        l2, t2 = snapshot(a)
        check(tree == t2 and all(np.array_equal(x, y, equal_nan=True) and d == e for (x, d), (y, e) in zip(leaves, l2)),
              f"{p['op']} modified its argument {type(a).__name__}")
    l3, t3 = snapshot(fn(p, None, UN0)(*args))
    check(t3 == first[1] and all(np.array_equal(x, y, equal_nan=True) for (x, _), (y, _) in zip(first[0], l3)),
          f"{p['op']} run twice on the same arguments differs")
    ctx.nt()
    ctx.label(p["op"])


# ----------------------------------------------------------------- Cartesian quantities of any position


@st.composite
def s_toq(draw):
    dim = draw(st.sampled_from([1, 2, 3, 3]))
    rep = draw(st.sampled_from({1: REPS1, 2: REPS2, 3: REPS3P}[dim]))
    shape = draw(st.sampled_from(SHAPES))
    return {"dim": dim, "rep": rep, "shape": shape, "Delta": draw(fl(0.2, 3)),
            "xyz": draw(points(shape, dim, fl(0, 9) if draw(st.booleans()) or rep == "radial" else None)),
            "lu": draw(st.sampled_from(lunits())), "au": draw(st.sampled_from(["rad", "deg"]))}


@facet("C13", "to_quantity", s_toq, quick=160, thorough=3000, modes=("x64", "f32"), f32_frac=0.2)
def to_quantity(case, ctx):
    """Any position read as a Cartesian quantity is its Cartesian point; building from it gives the point."""
    dim, rep, lu = case["dim"], case["rep"], case["lu"]
    f = usc("kpc", lu)
    xyz = A(case["xyz"], case["shape"], dim)
    v = pos_from_xyz(rep, xyz * f, lu, case["au"], case["Delta"] * f)
    truth = xyz_of(v, lu)
    tol = ctx.tol(1e-10, 2e-3 if rep == "prolate" else 1e-4) * max(scale_of(truth), f * (case["Delta"] if rep == "prolate" else 0.01))
    targets = [Q, UncheckedQuantity, AbstractQuantity]
    if np.all(truth > 1e-6 * f):
        targets.append(Distance)
    for t in targets:
        q = convert(v, t)
        check(isinstance(q, t), f"{t} {type(q)}")
        close(val(q, lu), truth, tol, f"convert({rep}, {t.__name__})")
    if not (rep == "prolate" and ctx.f32):
        w = CART["pos", dim].from_(convert(v, Q))
        close(xyz_of(w, lu), truth, tol, "rebuilt")
    ctx.nt(len(set(np.ravel(xyz).tolist())) > 1)
