"""Generated operators, their arguments, and the Galilean reference that applies them in NumPy."""

from __future__ import annotations

import jax
from plum import convert

from gens import *
from props.c05 import regular

O = cx.ops
CDEF = 299792.458 * usc("km/s", "kpc/Myr")
KINDS = ["pos", "pos_t", "q", "q_t", "q4", "fv", "posvel", "vel"]
# Which leaves can act on which argument (outside of it they raise).
LEAVES = {"pos": ["str", "rot", "vb", "id"], "q": ["str", "rot", "vb", "id"],
          "pos_t": ["str", "rot", "vb", "id", "tr", "boost", "gal"], "q_t": ["str", "rot", "vb", "id", "tr", "boost", "gal"],
          "q4": ["str", "rot", "vb", "id", "tr", "boost", "gal"], "fv": ["str", "rot", "vb", "id", "tr", "boost", "gal"],
          "posvel": ["str", "vb", "id"], "vel": ["vb", "id"]}
NEED3 = {"rot", "tr", "gal"}


def vec3():
    free = st.lists(st.one_of(fl(-5, 5), st.sampled_from([0.0, 1.0, -2.0])), min_size=3, max_size=3)
    axis = st.tuples(st.integers(0, 2), st.sampled_from([1.5, -2.0, 0.01, -0.001])).map(
        lambda t: [t[1] if i == t[0] else 0.0 for i in range(3)])
    cancel = st.sampled_from([[1.0, -2.0, 1.0], [2.5, -2.5, 0.0], [0.0, 1.0, -1.0], [1.0, 1.0, 1.0]])
    return st.one_of(free, free, free, axis, cancel)


def angle():
    return st.one_of(fl(-3.1, 3.1), st.sampled_from([0.0, 1.5707963267948966, 3.141592653589793, 0.01, -0.001, 3e-4]))


@st.composite
def leaf(draw, kinds, dim):
    k = draw(st.sampled_from([x for x in kinds if dim == 3 or x not in NEED3]))
    out = {"k": k, "lu": draw(st.sampled_from(["kpc", "pc"])), "tu": draw(st.sampled_from(["Myr", "yr"]))}
    if k in ("str", "tr", "gal"):
        out["d"] = draw(vec3())
        out["dform"] = draw(st.sampled_from(["vec", "vec", "cyl", "q", "sph"] if k == "str" and dim == 3 else
                                            ["vec", "q", "polar"] if k == "str" and dim == 2 else ["vec", "q"]))
        out["dim"] = draw(st.integers(1, dim)) if k == "str" and draw(st.integers(0, 3)) == 0 else dim
        if out["dim"] != dim:
            out["dform"] = "vec"
    if k in ("tr", "gal"):
        out["t0"] = draw(st.one_of(fl(-4, 4), st.just(0.0)))
        out["c"] = draw(st.sampled_from([None, None, 2.0]))
    if k in ("boost", "vb", "gal"):
        out["v"] = draw(vec3())
        out["vform"] = draw(st.sampled_from(["vec", "q"] if dim == 3 else ["vec"]))
    if k in ("boost", "vb"):
        out["dim"] = dim
    if k in ("rot", "gal"):
        out["seq"] = draw(st.sampled_from(["z", "x", "y", "zyx", "xyz", "ZXZ", "XYZ", "zxz"]))
        out["ang"] = draw(st.lists(angle(), min_size=len(out["seq"]), max_size=len(out["seq"])))
        out["rform"] = draw(st.sampled_from(["euler", "matrix", "matrixq", "jax"]))
    return out


@st.composite
def tree(draw, kinds, dim, depth=2):
    """An operator: a leaf or a composition of operators."""
    n = draw(st.integers(0, 5)) if depth else 0
    if n < 3:
        return draw(leaf(kinds, dim))
    return {"k": "pipe", "ops": [draw(tree(kinds, dim, depth - 1)) for _ in range(draw(st.integers(1, 3)))],
            "how": draw(st.sampled_from(["|", "tuple", "list", "right"]))}


@st.composite
def argument(draw, kinds=KINDS, shapes=SHAPES):
    kind = draw(st.sampled_from(kinds))
    dim = 3 if kind in ("q4", "fv") else draw(st.sampled_from([3, 3, 3, 2, 1]))
    shape = draw(st.sampled_from(shapes))
    out = {"kind": kind, "dim": dim, "shape": shape, "lu": draw(st.sampled_from(["kpc", "pc"])),
           "tu": draw(st.sampled_from(["Myr", "yr"])), "au": draw(st.sampled_from(["rad", "deg"]))}
    reps = {3: REPS3, 2: REPS2, 1: ["cart1"]}[dim]
    if kind in ("q", "q_t", "q4"):
        reps = [CARTOF[dim]]
    out["rep"] = draw(st.sampled_from(reps))
    if kind == "vel":
        out["rep"] = CARTOF[dim]
    out["vrep"] = draw(st.sampled_from(reps)) if kind == "posvel" else CARTOF[dim]
    out["xyz"] = draw(regular(shape, dim))
    if kind in ("posvel", "vel"):
        out["v"] = draw(points(shape, dim))
    if kind in ("pos_t", "q_t", "q4", "fv"):
        full = kind == "q4" or draw(st.booleans())
        out["ts"] = shape if full else []
        n = size(out["ts"])
        out["t"] = draw(st.lists(st.one_of(fl(-4, 4), st.just(0.0)), min_size=n, max_size=n))
    if kind == "fv":
        out["c"] = draw(st.sampled_from([None, None, 1.0, 2.5]))
    return out


@st.composite
def case(draw, kinds=KINDS, shapes=SHAPES, depth=2):
    a = draw(argument(kinds, shapes))
    leaves = LEAVES[a["kind"]]
    if a["kind"] == "posvel" and a["vrep"] not in CARTOF.values():
        leaves = ["str", "id"]  # boosting curvilinear velocities raises
    return {"arg": a, "op": draw(tree(leaves, a["dim"], depth))}


# ---------------------------------------------------------------- building


def matrix(lf) -> np.ndarray:
    """Rotation matrix of the Euler angles, composed from elementary rotations."""
    def elem(ax, t):
        c, s = np.cos(t), np.sin(t)
        m = np.eye(3)
        i, j = {"x": (1, 2), "y": (2, 0), "z": (0, 1)}[ax.lower()]
        m[i, i] = m[j, j] = c
        m[i, j], m[j, i] = -s, s
        return m

    M = np.eye(3)
    for ax, t in zip(lf["seq"], lf["ang"]):
        e = elem(ax, t)
        M = M @ e if ax.isupper() else e @ M  # intrinsic: later axes turn along
    return M


def rotation(lf):
    f = lf["rform"]
    if f == "euler":
        a = np.array(lf["ang"])
        a = a[0] if len(a) == 1 else a
        return O.GalileanRotation.from_euler(lf["seq"], Q(a, "rad") if lf["tu"] == "yr" else Angle(np.rad2deg(a), "deg"))
    M = matrix(lf)
    if f == "matrix":
        return O.GalileanRotation(M)
    if f == "matrixq":
        return O.GalileanRotation(Q(M, ""))
    return O.GalileanRotation.from_(jax.scipy.spatial.transform.Rotation.from_matrix(jax.numpy.asarray(M)))


def translation(lf):
    n, lu = lf["dim"], lf["lu"]
    x = np.array(lf["d"])[:n] * usc("kpc", lu)
    if lf["dform"] == "q":
        return O.GalileanSpatialTranslation(Q(x, lu))
    rep = {"vec": CARTOF[n], "cyl": "cyl", "sph": "sph", "polar": "polar"}[lf["dform"]]
    return O.GalileanSpatialTranslation(pos_from_xyz(rep, x, lu))


def spacetime(lf):
    x, t = np.array(lf["d"]) * usc("kpc", lf["lu"]), lf["t0"] * usc("Myr", lf["tu"])
    if lf["dform"] == "q":
        return O.GalileanTranslation.from_(
            Q(np.array([lf["t0"] * CDEF, *lf["d"]]) * usc("kpc", lf["lu"]), lf["lu"]))
    kw = {} if lf["c"] is None else {"c": Q(lf["c"], "kpc/Myr")}
    return O.GalileanTranslation(cx.FourVector(t=Q(t, lf["tu"]), q=cx.CartesianPos3D.from_(Q(x, lf["lu"])), **kw))


def boost(lf, cls):
    n = lf.get("dim", 3)
    un = f"{lf['lu']} / {lf['tu']}"
    v = np.array(lf["v"])[:n] * usc("kpc/Myr", un)
    return cls(Q(v, un)) if lf["vform"] == "q" else cls(mk_rate(CARTOF[n], v, lf["lu"], lf["tu"]))


def build(op):
    k = op["k"]
    if k == "pipe":
        ops = [build(o) for o in op["ops"]]
        if op["how"] in ("tuple", "list"):
            return O.Pipe(ops if op["how"] == "list" else tuple(ops))
        out = ops[0] if op["how"] == "|" else ops[-1]
        for o in (ops[1:] if op["how"] == "|" else ops[-2::-1]):
            out = out | o if op["how"] == "|" else o | out
        return out
    if k == "id":
        return O.Identity()
    if k == "rot":
        return rotation(op)
    if k == "str":
        return translation(op)
    if k == "tr":
        return spacetime(op)
    if k == "boost":
        return boost(op, O.GalileanBoost)
    if k == "vb":
        return boost(op, O.VelocityBoost)
    return O.GalileanOperator(rotation=rotation(op), translation=spacetime(op), velocity=boost(op, O.GalileanBoost))


def make(a) -> tuple:
    f, g, dim, sh = usc("kpc", a["lu"]), usc("Myr", a["tu"]), a["dim"], a["shape"]
    xyz = A(a["xyz"], sh, dim)
    kind = a["kind"]
    t = Q(A(a["t"], a["ts"]) * g, a["tu"]) if "t" in a else None
    if kind in ("q", "q_t"):
        q = Q(xyz * f, a["lu"])
        return (q,) if kind == "q" else (q, t)
    if kind == "q4":
        return (Q(np.concatenate([(CDEF * A(a["t"], sh))[..., None], xyz], -1) * f, a["lu"]),)
    if kind != "vel":
        p = pos_from_xyz(a["rep"], xyz * f, a["lu"], a["au"])
    if kind == "pos":
        return (p,)
    if kind == "pos_t":
        return p, t
    if kind == "fv":
        return (cx.FourVector(t=t, q=p, **({} if a["c"] is None else {"c": Q(a["c"], "kpc/Myr")})),)
    v = A(a["v"], sh, dim)
    comp = ref.vel_from_cart(a["vrep"], ref.from_cart(a["vrep"], xyz), v)
    fac = np.array([usc(rate_unit(kd, "kpc", "Myr"), rate_unit(kd, a["lu"], a["tu"])) for kd in ref.COMPS[a["vrep"]].values()])
    vel = mk_rate(a["vrep"], comp * fac, a["lu"], a["tu"])
    return (vel,) if kind == "vel" else (p, vel)


# ---------------------------------------------------------------- reference


def model(a) -> dict:
    sh = tuple(a["shape"])
    s = {"x": A(a["xyz"], sh, a["dim"])}
    if "t" in a:
        s["t"] = np.broadcast_to(A(a["t"], a["ts"]), sh)
    if "v" in a:
        s["v"] = A(a["v"], sh, a["dim"])
    return s


def inverse(op):
    """The reference's own inverse: a list of primitive steps, reversed and negated."""
    return [(k, {"rot": lambda p: p.T, "str": lambda p: -p, "tr": lambda p: -p, "time": lambda p: -p,
                 "boost": lambda p: -p, "vb": lambda p: -p}[k](p)) for k, p in reversed(steps(op))]


def steps(op) -> list:
    """An operator as primitive steps (name, parameter)."""
    k = op["k"]
    if k == "pipe":
        return [s for o in op["ops"] for s in steps(o)]
    if k == "id":
        return []
    if k == "rot":
        return [("rot", matrix(op))]
    if k == "str":
        return [("str", np.array(op["d"])[: op["dim"]])]
    if k == "tr":
        return [("str", np.array(op["d"])), ("time", np.array(op["t0"]))]
    if k in ("boost", "vb"):
        return [(k, np.array(op["v"])[: op.get("dim", 3)])]
    # rotation, then translation, then boost
    return [("rot", matrix(op)), ("str", np.array(op["d"])), ("time", np.array(op["t0"])), ("boost", np.array(op["v"]))]


def run(stp, s, trace=None):
    s = dict(s)
    for k, p in stp:
        if k == "rot":
            s["x"] = s["x"] @ p.T
        elif k == "str":
            s["x"] = s["x"] + np.pad(p, (0, s["x"].shape[-1] - len(p)))
        elif k == "time" and "t" in s:
            s["t"] = s["t"] + p
        elif k == "boost":
            s["x"] = s["x"] + p * s["t"][..., None]
        elif k == "vb" and "v" in s:
            s["v"] = s["v"] + p
        if trace is not None:
            trace.append(s["x"])
    return s


def tame(a, op) -> bool:
    """Every position on the way is off the axis and inside the range of well-conditioned numbers."""
    tr = []
    s = model(a)
    tr.append(s["x"])
    run(steps(op), s, tr)
    if a["dim"] == 1:
        return True
    return all(np.all(np.hypot(x[..., 0], x[..., 1]) > 0.25) for x in tr)


def out_scale(a, op) -> float:
    tr = []
    s = model(a)
    run(steps(op), s, tr)
    return max([1.0, scale_of(*s.values())] + [scale_of(x) for x in tr])


def tol(a, op, ctx):
    cur = {"sph", "math", "lonlat"} & {a["rep"], a["vrep"]}
    r = ctx.tol(1e-9, 1e-4)
    if cur:
        r = ctx.tol(3e-8, 1e-2)
    if a["kind"] == "q4":
        r = max(r, ctx.tol(1e-9, 1e-3))
    return r * max(1, len(steps(op)))


def compare(got, a, want: dict, tl: float, sc: float, what: str):
    """The result has the argument's kind, class and speed of light, and the wanted values."""
    kind, dim, sh = a["kind"], a["dim"], tuple(a["shape"])
    n = 2 if kind in ("pos_t", "q_t", "posvel") else 1
    if n == 2:
        check(isinstance(got, tuple) and len(got) == 2, f"{what}: {kind} gives {got!r}")
        x, y = got
    else:
        check(not isinstance(got, (tuple, list)), f"{what}: {kind} gives {got!r}")
        x = got
    if kind == "vel":
        check(type(x) is VEL[a["vrep"]], f"{what}: class {type(x)}")
        close(np.broadcast_to(rate_of(x, a["vrep"]), want["v"].shape), want["v"], tl * sc, f"{what}: velocity")
        return
    if kind in ("q", "q_t"):
        check(isinstance(x, u.quantity.AbstractQuantity), f"{what}: class {type(x)}")
        close(val(x, "kpc"), want["x"], tl * sc, f"{what}: position")
    elif kind == "q4":
        check(isinstance(x, u.quantity.AbstractQuantity) and x.shape == (*sh, 4), f"{what}: {type(x)} {x.shape}")
        v = val(x, "kpc")
        close(v[..., 0], want["t"] * CDEF, max(tl, 1e-9) * max(scale_of(want["t"]) * CDEF, sc), f"{what}: ct")
        close(v[..., 1:], want["x"], max(tl * sc, 1e-12 * CDEF * scale_of(want["t"])), f"{what}: position")
    else:
        if kind == "fv":
            check(type(x) is cx.FourVector, f"{what}: class {type(x)}")
            c = CDEF if a["c"] is None else a["c"]
            check(abs(float(val(x.c, "kpc/Myr")) - c) <= 1e-6 * c, f"{what}: speed of light {x.c}")
            y = x.t
            x = x.q
        check(type(x) is POS[a["rep"]], f"{what}: class {type(x).__name__}, the argument is {POS[a['rep']].__name__}")
        g = xyz_of(x, "kpc")
        close(np.broadcast_to(g, want["x"].shape), want["x"], tl * sc, f"{what}: position")
    if kind in ("pos_t", "q_t", "fv"):
        check(type(y) is Q["time"], f"{what}: time is {type(y)}")
        close(np.broadcast_to(val(y, "Myr"), sh), want["t"], tl * max(1.0, scale_of(want["t"])), f"{what}: time")
    if kind == "posvel":
        check(type(y) is VEL[a["vrep"]], f"{what}: velocity class {type(y)}")
        comp = rate_of(y, a["vrep"])
        xx = want["x"]
        comp = np.broadcast_to(comp, (*xx.shape[:-1], comp.shape[-1]))
        vc = ref.vel_to_cart(a["vrep"], ref.from_cart(a["vrep"], xx), comp)
        close(vc, want["v"], 30 * tl * max(sc, scale_of(want["v"])) * sc, f"{what}: velocity")
