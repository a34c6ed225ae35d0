"""Operations of the library as functions of their vector arguments, with generated inputs.

A program is a JSON case; `inputs(case, ...)` builds its arguments in chosen units and
`fn(case, ...)` the function that the library is to compute.
"""

from __future__ import annotations

from gens import *
from props.c05 import regular, REPS

OPS = ["pos_conv", "pos_conv", "vel_conv", "vel_conv", "acc_conv", "add", "sub", "smul", "div", "neg", "norm",
       "vel_norm", "displace", "vel_add", "acc_add", "rot", "trans", "boost", "galilean", "fv_op", "fv_norm", "fv_add",
       "vboost", "pipe", "quantity_op", "down", "up", "normalize", "prolate"]
AUN = ["rad", "deg"]


@st.composite
def op_params(draw):
    return {"axis": draw(st.lists(fl(-1, 1), min_size=3, max_size=3).filter(lambda a: sum(x * x for x in a) > 0.05)),
            "ang": draw(fl(-3, 3)), "d": draw(st.lists(fl(-5, 5), min_size=3, max_size=3)),
            "t0": draw(fl(-3, 3)), "v": draw(st.lists(fl(-5, 5), min_size=3, max_size=3))}


def rotmat(p):
    k = np.asarray(p["axis"], float)
    k = k / np.linalg.norm(k)
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + np.sin(p["ang"]) * K + (1 - np.cos(p["ang"])) * K @ K


@st.composite
def program(draw, ops=OPS, shapes=SHAPES):
    op = draw(st.sampled_from(ops))
    dim = 3
    if op in ("pos_conv", "vel_conv", "acc_conv", "add", "sub", "smul", "norm", "vel_norm", "displace", "vel_add"):
        dim = draw(st.sampled_from([3, 3, 3, 2, 1]))
    if op == "up":
        dim = draw(st.sampled_from([1, 2]))
    if op == "down":
        dim = draw(st.sampled_from([2, 3]))
    reps = {3: REPS3, 2: REPS2, 1: REPS1}[dim]
    if op in ("add", "sub", "smul", "div", "neg") and dim == 1:
        reps = ["cart1"]
    if op in ("displace", "vel_add", "acc_add", "normalize"):
        reps = [CARTOF[dim]]
    shape = draw(st.sampled_from(shapes))
    pro = op == "prolate"
    case = {"op": op, "dim": dim, "shape": shape, "a": draw(st.sampled_from(reps)), "b": draw(st.sampled_from(reps)),
            "p": draw(st.sampled_from(reps)),
            "xyz": draw(regular(shape, dim, strict=pro)), "xyz2": draw(regular(shape, dim)),
            "v": draw(points(shape, dim)), "acc": draw(points(shape, dim)),
            "t": draw(st.lists(fl(-4, 4), min_size=size(shape), max_size=size(shape))),
            "s": draw(generic_coord())}
    if pro:
        case["Delta"] = draw(fl(0.3, 3))
    if op in ("rot", "trans", "boost", "galilean", "fv_op", "vboost", "pipe", "quantity_op"):
        case["par"] = draw(op_params())
    return case


def kwunits(case, un, f=1.0):
    return un


def operator(case, un):
    p, lu, tu = case["par"], un["lu"], un["tu"]
    fl_, ft = usc("kpc", lu), usc("Myr", tu)
    d = Q(np.array(p["d"]) * fl_, lu)
    v = Q(np.array(p["v"]) * usc("kpc/Myr", f"{lu}/{tu}"), f"{lu}/{tu}")
    t0 = Q(p["t0"] * ft, tu)
    rot = cx.ops.GalileanRotation(rotmat(p))
    tr = cx.ops.GalileanTranslation(cx.FourVector(t=t0, q=cx.CartesianPos3D.from_(d)))
    str_ = cx.ops.GalileanSpatialTranslation(cx.CartesianPos3D.from_(d))
    boost = cx.ops.GalileanBoost(cx.CartesianVel3D.from_(v))
    op = case["op"]
    if op == "rot":
        return rot
    if op == "trans":
        return str_
    if op == "boost":
        return boost
    if op in ("galilean", "fv_op"):
        return cx.ops.GalileanOperator(rotation=rot, translation=tr, velocity=boost)
    if op == "vboost":
        return cx.ops.VelocityBoost(cx.CartesianVel3D.from_(v))
    if op == "pipe":
        return boost | tr | rot
    return rot | str_


def inputs(case, un) -> tuple:
    """Arguments in the given units: lu, tu, au (kpc, Myr, rad are the case's own)."""
    op, dim, shape, lu, tu, au = case["op"], case["dim"], case["shape"], un["lu"], un["tu"], un["au"]
    f, g = usc("kpc", lu), usc("Myr", tu)
    xyz, xyz2 = A(case["xyz"], shape, dim), A(case["xyz2"], shape, dim)
    vc, ac, t = A(case["v"], shape, dim), A(case["acc"], shape, dim), Q(A(case["t"], shape) * g, tu)
    D = case.get("Delta")

    def pos(rep, x):
        return pos_from_xyz(rep, x * f, lu, au)

    def rate(rep, x, vec, order):
        comp = ref.vel_from_cart(rep, ref.from_cart(rep, x), vec)
        fac = np.array([usc(rate_unit(kd, "kpc", "Myr", order), rate_unit(kd, lu, tu, order))
                        for kd in ref.COMPS[rep].values()])
        return mk_rate(rep, comp * fac, lu, tu, order)

    a, p = case["a"], case["p"]
    if op in ("pos_conv", "smul", "div", "neg", "norm", "down", "up", "rot", "trans", "normalize"):
        return (pos(a, xyz),)
    if op in ("add", "sub"):
        return pos(a, xyz), pos(p, xyz2)
    if op in ("vel_conv", "vel_norm", "vboost"):
        r = "cart3" if op == "vboost" else a
        return rate(r, xyz, vc, 1), pos(p, xyz)
    if op == "acc_conv":
        return rate(a, xyz, ac, 2), rate(p, xyz, vc, 1), pos(p, xyz)
    if op == "displace":
        return rate(a, xyz, vc, 1), t
    if op == "vel_add":
        return rate(a, xyz, vc, 1), rate(a, xyz, ac, 1)
    if op == "acc_add":
        return rate(a, xyz, vc, 2), rate(a, xyz, ac, 2)
    if op in ("boost", "galilean", "pipe"):
        return pos(a, xyz), t
    if op in ("fv_op", "fv_norm"):
        return (cx.FourVector(t=t, q=pos(a, xyz)),)
    if op == "fv_add":
        return cx.FourVector(t=t, q=pos(a, xyz)), cx.FourVector(t=t + t, q=pos(p, xyz2))
    if op == "quantity_op":
        return (Q(xyz * f, lu),)
    if op == "prolate":
        return pos_from_xyz("prolate", xyz * f, lu, au, D * f), rate(p, xyz, vc, 1)
    raise KeyError(op)


def fn(case, oper=None, un=None):
    """The function of the arguments; `oper` replaces the operator for operator programs."""
    op, dim, b = case["op"], case["dim"], case["b"]
    if "par" in case:
        o = oper if oper is not None else operator(case, un)
        if op in ("rot", "trans", "fv_op", "quantity_op"):
            return lambda x: o(x)
        if op == "vboost":
            return lambda v, p: o(p, v)
        return lambda p, t: o(p, t)
    lower = {3: cx.vecs.CartesianPos2D, 2: cx.vecs.CartesianPos1D}.get(dim)
    upper = cx.CartesianPos3D
    s = case["s"]
    D = Q(case["Delta"] * usc("kpc", un["lu"]), un["lu"]) if "Delta" in case else None
    return {
        "pos_conv": lambda p: p.represent_as(POS[b]),
        "vel_conv": lambda v, p: v.represent_as(VEL[b], p),
        "acc_conv": lambda a, v, p: a.represent_as(ACC[b], v, p),
        "add": lambda p, q: p + q, "sub": lambda p, q: p - q,
        "smul": lambda p: s * p, "div": lambda p: p / s, "neg": lambda p: -p,
        "norm": lambda p: p.norm(), "vel_norm": lambda v, p: (v.norm() if case["a"].startswith("cart") else v.norm(p)),
        "displace": lambda v, t: v * t, "vel_add": lambda v, w: v + w, "acc_add": lambda v, w: v + w,
        "fv_norm": lambda x: x._norm2(), "fv_add": lambda x, y: x - y,
        "down": lambda p: p.represent_as(lower), "up": lambda p: p.represent_as(upper),
        "normalize": lambda p: cx.vecs.normalize_vector(p),
        "prolate": lambda p, v: (p.represent_as(POS[b]), p.represent_as(POS["prolate"], Delta=2 * D),
                                 v.represent_as(VEL[b], p)),
    }[op]
