"""C11: shape, indexing and reshaping act elementwise."""

import quaxed.numpy as jnp

from gens import *
from core import facet

RULE = ("A case is a vector of any class and batch shape of rank 0-3 (sizes 0-4), whose components have different "
        "but broadcastable shapes and hold a distinct tag per element, and a sequence of 1-5 shape operations "
        "(index expressions, reshape, flatten, ravel, T, mT, iteration, broadcasting, unary plus). Non-trivial: at "
        "least two elements and an operation that changes the shape or the order.")
ASSUMPTIONS = ["the same operations on a NumPy array of element numbers are the oracle",
               "functions of quaxed.numpy that a vector does not implement raise (stack, concat, squeeze)"]

CLASSES = ([("pos", r) for r in POS] + [("vel", r) for r in VEL] + [("acc", r) for r in ACC]
           + [("nd", "0"), ("nd", "1"), ("nd", "2"), ("fv", "sph"), ("fv", "cart3"), ("fv", "prolate"),
              ("two", ""), ("poincare", ""), ("loncoslat", "")])
V = cx.vecs


def table(kind, rep):
    """Class and, per component, (name, unit, offset, scale) of the tag values."""
    if kind == "pos":
        cls = POS[rep]
        off = {"L": (0.5, 2.0), "A": (0.1, 3.0), "P": (0.1, 2.5), "B": (-1.0, 2.0), "L2": (1.0, 3.0)}
        out = [(k, kind_unit(kd, "kpc"), *off[kd]) for k, kd in ref.COMPS[rep].items()]
        if rep == "prolate":
            out[1] = ("nu", "kpc2", -0.4, 0.8)
        return cls, out
    if kind in ("vel", "acc"):
        o = 1 if kind == "vel" else 2
        pre = "d_" if o == 1 else "d2_"
        return (VEL if o == 1 else ACC)[rep], [(pre + k, rate_unit(kd, "kpc", "Myr", o), -1.0, 3.0)
                                              for k, kd in ref.COMPS[rep].items()]
    if kind == "two":
        return V.TwoSpherePos, [("theta", "rad", 0.1, 2.5), ("phi", "rad", 0.1, 3.0)]
    if kind == "loncoslat":
        return V.LonCosLatSphericalVel, [("d_lon_coslat", "rad/Myr", 0.1, 2.5), ("d_lat", "rad/Myr", 0.1, 3.0),
                                         ("d_distance", "kpc/Myr", 0.1, 3.0)]
    if kind == "poincare":
        return V.PoincarePolarVector, [("rho", "kpc", 0.5, 2.0), ("pp_phi", "kpc rad(1/2) / Myr(1/2)", -1, 2.0),
                                       ("z", "kpc", -1, 2.0), ("d_rho", "kpc/Myr", -1, 3.0),
                                       ("d_pp_phi", "kpc rad(1/2) / Myr(1/2)", -1, 3.0), ("d_z", "kpc/Myr", -1, 3.0)]
    raise KeyError(kind)


DIMS = st.sampled_from([2, 3, 2, 1, 4])


@st.composite
def comp_shape(draw, shape):
    """A shape that broadcasts to `shape`."""
    s = [1 if draw(st.integers(0, 3)) == 0 else d for d in shape]
    k = draw(st.sampled_from([0, 0, 0, 1, 2, 3]))
    return s[min(k, len(s)):]


@st.composite
def index(draw, shape):
    """A JSON index expression valid for shape, without out-of-range integers."""
    out, ell = [], False
    for d in shape:
        c = draw(st.sampled_from(["i", "s", "s", "all", "a", "b", "stop", "new", "ell"]))
        if c == "stop":
            break
        if c == "ell" and not ell:
            ell = True
            k = draw(st.integers(0, len(shape) - sum(x[0] not in ("new", "ell") for x in out)))
            out.append(["ell"])
            break
        if c == "new":
            out.append(["new"])
            c = "all"
        if d == 0 and c in ("i", "a"):
            c = "all"
        if c in ("a", "b") and any(x[0] in ("a", "b") for x in out):
            c = "s"
        if c == "i":
            out.append(["i", draw(st.integers(-d, d - 1))])
        elif c == "s":
            out.append(["s", draw(st.one_of(st.none(), st.integers(-4, 4))),
                        draw(st.one_of(st.none(), st.integers(-4, 4))), draw(st.sampled_from([None, 1, 2, -1, -2]))])
        elif c == "a":
            out.append(["a", draw(st.lists(st.integers(-d, d - 1), min_size=1, max_size=4))])
        elif c == "b":
            out.append(["b", [draw(st.booleans()) for _ in range(d)]])
        else:
            out.append(["s", None, None, None])
    return out


def to_index(ix):
    m = {"i": lambda x: x[1], "s": lambda x: slice(*x[1:]), "a": lambda x: np.array(x[1], int),
         "b": lambda x: np.array(x[1], bool), "new": lambda x: None, "ell": lambda x: Ellipsis}
    t = tuple(m[x[0]](x) for x in ix)
    return t[0] if len(t) == 1 else t


@st.composite
def case_(draw):
    kind, rep = draw(st.sampled_from(CLASSES))
    rank = draw(st.sampled_from([0, 1, 2, 2, 3, 3]))
    shape = [draw(DIMS) for _ in range(rank)]
    if draw(st.integers(0, 11)) == 0 and shape:
        shape[draw(st.integers(0, len(shape) - 1))] = 0
    ncomp = 8
    shapes = [draw(comp_shape(shape)) for _ in range(ncomp)]
    cur = np.arange(int(np.prod(shape))).reshape(shape)
    ops = []
    for _ in range(draw(st.integers(2, 5))):
        c = draw(st.sampled_from(["idx", "idx", "idx", "reshape", "reshape", "flatten", "ravel", "T", "mT", "iter",
                                  "bcast", "pos", "newfirst"]))
        if c == "idx":
            ix = draw(index(list(cur.shape)))
            ops.append(["idx", ix])
            cur = cur[to_index(ix)]
        elif c == "reshape":
            n = cur.size
            divs = [d for d in range(1, n + 1) if n % d == 0] or [1]
            a = draw(st.sampled_from(divs))
            b = draw(st.sampled_from([d for d in divs if (n // a) % d == 0])) if n else 1
            tgt = draw(st.sampled_from([[a, -1], [-1], [a, b, n // a // b], [b, -1, a], [a, n // a]])) if n else [0]
            how = draw(st.sampled_from(["args", "tuple"]))
            order = draw(st.sampled_from([None, "C", "F", "F"]))
            ops.append(["reshape", tgt, how, order])
            cur = cur.reshape(tgt, order=order or "C")
        elif c in ("flatten", "ravel"):
            ops.append([c])
            cur = cur.reshape(-1)
        elif c == "T":
            ops.append([c])
            cur = cur.T
        elif c == "mT" and cur.ndim >= 2:
            ops.append([c])
            cur = np.swapaxes(cur, -1, -2)
        elif c == "iter" and cur.ndim >= 1 and len(cur):
            i = draw(st.integers(0, len(cur) - 1))
            ops.append(["iter", i])
            cur = cur[i]
        elif c == "bcast" and kind == "pos" and rep != "radial" and cur.size:
            k = draw(st.integers(1, 3))
            ops.append(["bcast", k])
            cur = np.broadcast_to(cur, (k, *cur.shape))
        elif c == "pos":
            ops.append([c])
        elif c == "newfirst":
            ops.append(["idx", [["new"]]])
            cur = cur[None]
        if cur.size > 60 or cur.ndim > 4:
            break
    return {"kind": kind, "rep": rep, "shape": shape, "shapes": shapes, "ops": ops, "deg": draw(st.booleans()),
            "form": "plain"}


def tagged(shape, full, off, scale):
    """Distinct values on the component's own shape, and the full broadcast."""
    n = int(np.prod(shape))
    v = off + scale * (np.arange(n) + 1.0) / (n + 1.0)
    v = v.reshape(shape)
    return v, np.broadcast_to(v, full)


def build(case):
    kind, rep, full, shapes = case["kind"], case["rep"], tuple(case["shape"]), case["shapes"]
    if kind == "nd":
        o = int(rep)
        v = -1 + np.arange(int(np.prod(full)) * 3.0).reshape(full + (3,))
        cls = [V.CartesianPosND, V.CartesianVelND, V.CartesianAccND][o]
        name = ["q", "d_q", "d2_q"][o]
        un = rate_unit("L", "kpc", "Myr", o) if o else "kpc"
        return cls(**{name: Q(v, un)}), {name: (v.reshape((-1, 3)), un)}, {}
    if kind == "fv":
        cls, comps = table("pos", rep)
        want = {}
        kw = {}
        for i, (k, un, off, sc) in enumerate(comps):
            s = full if i == 0 else shapes[i]
            v, f = tagged(s, full, off, sc)
            kw[k] = Q(v, un)
            want["q." + k] = (f.reshape(-1), un)
        if rep == "prolate":
            kw["Delta"] = Q(0.9, "kpc")
        t, f = tagged(shapes[4], full, -1, 2.0)
        want["t"] = (f.reshape(-1), "Myr")
        return cx.FourVector(t=Q(t, "Myr"), q=cls(**kw), c=Q(7.0, "km/s")), want, {"c": (7.0, "km/s")}
    cls, comps = table(kind, rep)
    kw, want = {}, {}
    anchor = sum(map(ord, kind + rep)) % len(comps)
    for i, (k, un, off, sc) in enumerate(comps):
        s = full if i == anchor else shapes[i]  # one component has the whole shape
        v, f = tagged(s, full, off, sc)
        if case["deg"] and un == "rad":
            v, f, un = np.rad2deg(v), np.rad2deg(f), "deg"
        kw[k] = Q(v, un)
        want[k] = (f.reshape(-1), un)
    fixed = {}
    if kind == "pos" and rep == "prolate":
        kw["Delta"] = Q(0.9, "kpc")
        fixed["Delta"] = (0.9, "kpc")
    return cls(**kw), want, fixed


def compare(vec, cls, ids, want, fixed, what):
    check(type(vec) is cls, f"{what}: class {type(vec).__name__}")
    check(tuple(vec.shape) == ids.shape, f"{what}: shape {vec.shape} != {ids.shape}")
    check(vec.ndim == ids.ndim, f"{what}: ndim {vec.ndim}")
    check(vec.size == ids.size, f"{what}: size {vec.size} != {ids.size}")
    check(len(vec) == (len(ids) if ids.ndim else 0), f"{what}: len {len(vec)}")
    for k, (flat_, un) in want.items():
        obj = vec
        for part in k.split("."):
            obj = getattr(obj, part)
        got = val(obj, un)
        check(apu.Unit(str(obj.unit)) == apu.Unit(un), f"{what}: unit of {k} is {obj.unit}")
        exp = flat_[ids]
        try:
            got = np.broadcast_to(got, exp.shape)
        except ValueError:
            raise Violation(f"{what}: component {k} has shape {got.shape}, vector {ids.shape}") from None
        close(got, exp, 1e-12, f"{what}: {k}", rtol=1e-14)
    for k, (v, un) in fixed.items():
        got = val(getattr(vec, k), un)
        check(got.shape == () and abs(got - v) < 1e-12, f"{what}: {k} became {got}")


@facet("C11", "history", case_, quick=330, thorough=5000, modes=("x64",), shards=8)
def history(case, ctx):
    """Sequences of shape operations move whole elements as on a NumPy array."""
    vec, want, fixed = build(case)
    cls = type(vec)
    ids = np.arange(size(case["shape"])).reshape(case["shape"])
    compare(vec, cls, ids, want, fixed, "built")
    orig, orig_ids = vec, ids
    for op in case["ops"]:
        name = op[0]
        if name == "idx":
            ix = to_index(op[1])
            vec, ids = vec[ix], ids[ix]
        elif name == "reshape":
            kw = {"order": op[3]} if op[3] else {}
            vec = vec.reshape(*op[1], **kw) if op[2] == "args" else vec.reshape(tuple(op[1]), **kw)
            ids = ids.reshape(op[1], order=op[3] or "C")
        elif name in ("flatten", "ravel"):
            vec, ids = getattr(vec, name)(), ids.reshape(-1)
        elif name == "T":
            vec, ids = vec.T, ids.T
        elif name == "mT":
            vec, ids = vec.mT, np.swapaxes(ids, -1, -2)
        elif name == "iter":
            parts = list(vec)
            check(len(parts) == len(ids), f"iteration gives {len(parts)} of {len(ids)} elements")
            vec, ids = parts[op[1]], ids[op[1]]
        elif name == "bcast":
            n = len(ref.COMPS[case["rep"]])
            vec, ids = jnp.broadcast_to(vec, (op[1], *ids.shape, n)), np.broadcast_to(ids, (op[1], *ids.shape))
        elif name == "pos":
            vec = +vec
        compare(vec, cls, np.asarray(ids), want, fixed, str(op))
        ctx.label(name)
    compare(orig, cls, orig_ids, want, fixed, "the original afterwards")
    ctx.nt(orig_ids.size > 1 and (np.asarray(ids).shape != orig_ids.shape or not np.array_equal(ids, orig_ids)))


@st.composite
def attr_case(draw):
    c = draw(case_())
    return dict(c, ops=[])


@facet("C11", "attributes", attr_case, quick=80, thorough=800, modes=("x64",), shards=2)
def attributes(case, ctx):
    """The per-component attributes describe the components."""
    vec, want, _ = build(case)
    if case["kind"] != "fv":
        check(tuple(vec.components) == tuple(want), f"components {vec.components} != {tuple(want)}")
        for k in want:
            q = getattr(vec, k)
            check(tuple(vec.shapes[k]) == tuple(q.shape), f"shapes[{k}] = {vec.shapes[k]}, component {q.shape}")
            check(vec.sizes[k] == int(np.prod(q.shape)), f"sizes[{k}] = {vec.sizes[k]}")
            check(vec.dtypes[k] == q.dtype, f"dtypes[{k}]")
            check(apu.Unit(str(vec.units[k])) == apu.Unit(want[k][1]), f"units[{k}] = {vec.units[k]}")
            check(k in vec.devices, f"devices[{k}]")
        check(set(vec.shapes) == set(want), f"shapes has keys {set(vec.shapes)}")
    for bad in (lambda: vec.__setitem__(0, 1), lambda: setattr(vec, next(iter(want)).split(".")[0], 1)):
        try:
            bad()
        except Exception:
            pass
        else:
            raise Violation("a vector was modified in place")
    ctx.nt(size(case["shape"]) > 1)
