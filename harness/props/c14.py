"""C14: four-vectors follow Minkowski algebra."""

import jax
import quaxed.numpy as jnp
from plum import convert

from gens import *
from core import facet
from props.c07 import rtol

RULE = ("A case is one or several events (time and position in own units and any 3-D system, scalar or batched, with "
        "times of any shape that broadcasts), a speed of light (the default or own, in own units), and an operation or "
        "a history of 2-6 additions, subtractions, negations, unit changes, indexings and representation changes. "
        "Non-trivial: the time and the position are not zero.")
ASSUMPTIONS = ["NumPy Minkowski algebra on (t, x, y, z, c) is the oracle",
               "multiplication of a four-vector raises and is not part of the property"]
CDEF = 299792.458  # km/s
CU = ["kpc/Myr", "km/s", "pc/yr"]
FV = cx.FourVector


def sub_shape(draw, shape):
    k = draw(st.sampled_from([0, 0, 0, 1, len(shape)]))
    s = list(shape[k:])
    if s and draw(st.integers(0, 4)) == 0:
        s[draw(st.integers(0, len(s) - 1))] = 1
    return s


@st.composite
def event(draw, shape, reps=REPS3P, c=True):
    rep = draw(st.sampled_from(reps))
    ts = sub_shape(draw, shape)
    return {"rep": rep, "shape": shape, "xyz": draw(points(shape, 3)), "ts": ts,
            "t": draw(st.lists(coord(), min_size=size(ts), max_size=size(ts))),
            "lu": draw(st.sampled_from(lunits())), "au": draw(st.sampled_from(["rad", "deg"])),
            "tu": draw(st.sampled_from(["Myr", "yr"])), "Delta": draw(fl(0.3, 3)),
            "c": draw(st.sampled_from([None, None, 1.0, 2.5, 0.3])) if c else None,
            "cu": draw(st.sampled_from(CU))}


def cval(e):
    """Speed of light in kpc/Myr."""
    return CDEF * usc("km/s", "kpc/Myr") if e["c"] is None else e["c"]


def make(e, c="own"):
    f = usc("kpc", e["lu"])
    q = pos_from_xyz(e["rep"], A(e["xyz"], e["shape"], 3) * f, e["lu"], e["au"], e["Delta"] * f)
    kw = {}
    if e["c"] is not None:
        kw["c"] = Q(e["c"] * usc("kpc/Myr", e["cu"]), e["cu"])
    return FV(t=Q(A(e["t"], e["ts"]) * usc("Myr", e["tu"]), e["tu"]), q=q, **kw)


def model(e):
    t = np.broadcast_to(A(e["t"], e["ts"]), tuple(e["shape"]))
    return t, A(e["xyz"], e["shape"], 3)


def read(x):
    t = val(x.t, "Myr")
    q = xyz_of(x.q, "kpc")
    return np.broadcast_to(t, q.shape[:-1]), q, float(val(x.c, "kpc/Myr"))


@st.composite
def s_norm(draw):
    return {"e": draw(event(draw(st.sampled_from([[], [3], [2, 3]])))), "s": draw(st.sampled_from([0.5, 2.0])),
            "lu": draw(st.sampled_from(["kpc", "pc"])), "tu": draw(st.sampled_from(["Myr", "yr"])),
            "to": draw(st.sampled_from(REPS3P)), "how": draw(st.sampled_from(["map", "sys"]))}


def tol_e(ctx, *es):
    r = rtol(ctx, *[e["rep"] for e in es])
    if any(e["rep"] == "prolate" for e in es):
        r = ctx.tol(1e-6, 3e-2)
    return r


@facet("C14", "norm", s_norm, quick=160, thorough=3500, modes=("x64", "f32"), f32_frac=0.2, shards=2)
def norm(case, ctx):
    """Storage, squared norm, norm, Cartesian array, attribute access, equality."""
    e = case["e"]
    x = make(e)
    t, xyz = model(e)
    c = cval(e)
    tol = tol_e(ctx, e)
    sq = max(1.0, scale_of(xyz))
    rt, rq, rc = read(x)
    close(rt, t, ctx.tol(1e-13, 1e-6) * max(1, scale_of(t)), "t")
    close(rq, xyz, tol * sq, "q")
    check(abs(rc - c) <= ctx.tol(1e-13, 1e-6) * c, f"c {rc} {c}")
    check(x.shape == tuple(e["shape"]), f"shape {x.shape}")
    want = (c * t) ** 2 - np.sum(xyz**2, -1)
    n2tol = ctx.tol(1e-9, 1e-5) * max(1.0, scale_of((c * t) ** 2, xyz**2)) + tol * sq**2
    close(val(x._norm2(), "kpc2"), want, n2tol, "norm2")
    nn = x.norm()
    g = np.asarray(nn.value) * usc(str(nn.unit), "kpc")
    w = np.sqrt(want.astype(complex))
    check(g.shape == want.shape, f"norm shape {g.shape}")
    # near the light cone only the square is well conditioned
    check(bool(np.all(np.abs(g**2 - want) <= 4 * n2tol)), f"norm {g} expected {w}")
    big = np.abs(want) > 1e-3 + 100 * n2tol
    check(bool(np.all((np.abs(g - w) <= 1e-2 * np.abs(w))[big])), f"norm {g} expected {w}")
    check(bool(np.all(np.asarray(abs(x).value) == np.asarray(nn.value))), "abs() is not norm()")
    q4 = convert(x, Q)
    check(q4.shape == (*e["shape"], 4), f"as array: shape {q4.shape}")
    q4 = val(q4, "kpc")
    close(q4[..., 0], c * t, ctx.tol(1e-12, 1e-5) * max(1.0, scale_of(c * t)), "array: ct")
    close(q4[..., 1:], xyz, tol * sq + ctx.tol(1e-12, 1e-6) * scale_of(c * t), "array: xyz")
    y = FV.from_(Q(np.concatenate([(CDEF * usc("km/s", "kpc/Myr") * t)[..., None], xyz], -1), "kpc"))
    yt, yq, yc = read(y)
    close(yt, t, ctx.tol(1e-12, 2e-6) * max(1, scale_of(t)), "from_ array: t")
    close(yq, xyz, ctx.tol(1e-12, 1e-6) * sq, "from_ array: q")
    check(abs(yc - CDEF * usc("km/s", "kpc/Myr")) < 1e-4 * yc, "from_ array: c")
    for k in x.q.components:  # attribute access reaches the spatial part
        check(np.array_equal(np.asarray(getattr(x, k).value), np.asarray(getattr(x.q, k).value)), f"attribute {k}")
    check(bool(np.all(np.asarray(x == x))), "x == x")
    z = FV(t=x.t + Q(1.0, e["tu"]), q=x.q, c=x.c)
    check(not np.any(np.asarray(x == z)), "an event equals a later one")
    ctx.nt(scale_of(t) > 0 and scale_of(xyz) > 0)
    ctx.label(e["rep"])


@facet("C14", "invariance", s_norm, quick=110, thorough=2500, shards=2)
def invariance(case, ctx):
    """Unit changes, representation changes, shape operations keep the event, c and the norm."""
    e = case["e"]
    x = make(e)
    t, xyz = model(e)
    c = cval(e)
    tol = max(tol_e(ctx, e), 1e-6 if case["to"] == "prolate" else 2e-7 if case["to"] in ("sph", "math", "lonlat") else 0)
    want = (c * t) ** 2 - np.sum(xyz**2, -1)

    def same_event(y, what, tt=t, qq=xyz, ww=want, rep=e["rep"]):
        rt, rq, rc = read(y)
        check(type(y) is FV and type(y.q) is POS[rep], f"{what}: class {type(y)} {type(y.q)}")
        check(abs(rc - c) <= 1e-12 * c, f"{what}: c {rc}, was {c}")
        close(rt, tt, 1e-12 * max(1, scale_of(tt)), f"{what}: t")
        close(rq, qq, tol * max(1, scale_of(xyz)), f"{what}: q")
        close(val(y._norm2(), "kpc2"), ww, 2 * tol * max(1.0, scale_of((c * t) ** 2, xyz**2)), f"{what}: norm")

    lu, tu = case["lu"], case["tu"]
    from unxt.unitsystems import unitsystem
    if case["how"] == "map":
        un = {"length": lu, "time": tu, "angle": "deg", "area": f"{lu}2"}
        y = x.uconvert(un)
    else:
        y = x.uconvert(unitsystem(lu, tu, "Msun", "deg"))
    same_event(y, "uconvert")
    check(str(y.t.unit) == tu, f"uconvert: time in {y.t.unit}")
    D = {"Delta": Q(1.3, "kpc")} if case["to"] == "prolate" else {}
    y = FV(t=x.t, q=x.q.represent_as(POS[case["to"]], **D), c=x.c)
    same_event(y, "represent_as", rep=case["to"])
    n = size(e["shape"])
    same_event(x.reshape(n), "reshape", t.reshape(n), xyz.reshape(n, 3), want.reshape(n))
    same_event(x.flatten(), "flatten", t.ravel(), xyz.reshape(n, 3), want.ravel())
    if e["shape"]:
        same_event(x[-1], "index", t[-1], xyz[-1], want[-1])
        same_event(x[::2], "slice", t[::2], xyz[::2], want[::2])
        check(len(x) == e["shape"][0], "len")
    same_event(+x, "pos")
    ctx.nt(scale_of(t) > 0 and scale_of(xyz) > 0)


@st.composite
def s_hist(draw):
    shape = draw(st.sampled_from([[], [3], [2, 3]]))
    ev = [draw(event(shape, REPS3)) for _ in range(draw(st.integers(2, 3)))]
    ops = draw(st.lists(st.fixed_dictionaries({
        "op": st.sampled_from(["add", "sub", "neg", "add", "sub", "units", "rep", "opt", "jit"]),
        "i": st.integers(0, 7), "j": st.integers(0, 7), "to": st.sampled_from(REPS3),
        "d": st.lists(fl(-5, 5), min_size=4, max_size=4)}), min_size=1, max_size=6))
    return {"ev": ev, "ops": ops}


@facet("C14", "history", s_hist, quick=130, thorough=3000, modes=("x64", "f32"), f32_frac=0.15, shards=3)
def history(case, ctx):
    """Sequences of additions, subtractions, negations and conversions against the model."""
    es = case["ev"]
    pool = [(make(e), model(e), cval(e), e["rep"]) for e in es]
    tol = ctx.tol(1e-6, 2e-2)
    moved = False
    for o in case["ops"]:
        x, (t, q), c, rep = pool[o["i"] % len(pool)]
        y, (t2, q2), _, _ = pool[o["j"] % len(pool)]
        op = o["op"]
        if op == "add":
            new = x + y, (t + t2, q + q2), c, rep
        elif op == "sub":
            new = x - y, (t - t2, q - q2), c, rep
        elif op == "neg":
            new = -x, (-t, -q), c, rep
        elif op == "units":
            new = x.uconvert({"length": "pc", "time": "yr", "angle": "deg"}), (t, q), c, rep
        elif op == "rep":
            new = FV(t=x.t, q=x.q.represent_as(POS[o["to"]]), c=x.c), (t, q), c, o["to"]
        elif op == "opt":
            d = FV(t=Q(o["d"][0], "Myr"), q=cx.CartesianPos3D.from_(o["d"][1:], "kpc"))
            new = cx.ops.GalileanTranslation(d)(x), (t + o["d"][0], q + np.array(o["d"][1:])), c, rep
        else:
            new = jax.jit(lambda a, b: a - b)(x, y), (t - t2, q - q2), c, rep
        z, (t, q), c, rep = new
        check(type(z) is FV and type(z.q) is POS[rep], f"{op}: {type(z)} {type(z.q)}, expected {rep}")
        rt, rq, rc = read(z)
        sc = max([1.0] + [scale_of(m[0], m[1]) for _, m, _, _ in pool]) + 10
        close(rt, t, ctx.tol(1e-11, 1e-4) * sc, f"{op}: t")
        close(rq, q, tol * sc, f"{op}: q")
        check(abs(rc - c) <= ctx.tol(1e-12, 1e-6) * c, f"{op}: c {rc}, expected {c}")
        moved |= op not in ("units", "rep")
        pool.append(new)
    ctx.nt(moved and all(scale_of(p[1][0]) > 0 and scale_of(p[1][1]) > 0 for p in pool[:2]))
    ctx.label(f"len{len(case['ops'])}")


@st.composite
def s_bad(draw):
    shape = draw(st.sampled_from([[], [2], [2, 3]]))
    ts = draw(st.sampled_from([[3, 1, 1], [4], [5], [2, 2], [1, 2, 3], [2, 1]]))
    return {"shape": shape, "ts": ts, "kind": draw(st.sampled_from(["shape", "shape", "tunit", "q"])),
            "unit": draw(st.sampled_from(["km", "km/s", "rad", "kg", "1/Myr"])),
            "rep": draw(st.sampled_from(REPS3)), "xyz": draw(points(shape, 3))}


@facet("C14", "reject", s_bad, quick=60, thorough=800)
def reject(case, ctx):
    """Times that do not broadcast to the position, or have another dimension, are errors."""
    q = pos_from_xyz(case["rep"], A(case["xyz"], case["shape"], 3))
    ts, shape = tuple(case["ts"]), tuple(case["shape"])
    if case["kind"] == "shape":
        try:
            ok = np.broadcast_shapes(ts, shape) == shape
        except ValueError:
            ok = False
        f = lambda: FV(t=Q(np.ones(ts), "Myr"), q=q)
    elif case["kind"] == "tunit":
        ok = False
        f = lambda: FV(t=Q(np.ones(()), case["unit"]), q=q)
    else:
        ok = False
        f = lambda: FV(t=Q(1.0, "Myr"), q=Q(np.ones((*shape, 3)), "Myr"))
    try:
        x = f()
    except Exception:  # noqa: BLE001
        check(not ok, f"t{ts} with q{shape} raised")
        ctx.nt()
        return
    check(ok, f"accepted {case['kind']} t{ts} q{shape}: {x!r}")
    check(x.shape == shape, f"shape {x.shape}")


@st.composite
def s_pair(draw):
    shape = draw(st.sampled_from([[], [3]]))
    from progs import op_params
    return {"a": draw(event(shape, REPS3)), "b": draw(event(shape, REPS3, c=False)), "par": draw(op_params())}


@facet("C14", "interval", s_pair, quick=48, thorough=900, shards=3)
def interval(case, ctx):
    """The interval between two events is unchanged by rotations and translations of both."""
    from progs import rotmat
    a, b = make(case["a"]), make(case["b"])
    p = case["par"]
    c = cval(case["a"])
    t1, q1 = model(case["a"])
    t2, q2 = model(case["b"])
    want = (c * (t1 - t2)) ** 2 - np.sum((q1 - q2) ** 2, -1)
    sc = max(1.0, scale_of((c * t1) ** 2, (c * t2) ** 2, q1**2, q2**2))
    close(val((a - b)._norm2(), "kpc2"), want, 1e-6 * sc, "interval")
    rot = cx.ops.GalileanRotation(rotmat(p))
    tr = cx.ops.GalileanTranslation(FV(t=Q(p["t0"], "Myr"), q=cx.CartesianPos3D.from_(p["d"], "kpc")))
    for o, what in ((rot, "rotation"), (tr, "translation"), (rot | tr, "rotation and translation")):
        g = o(a) - o(b)
        close(val(g._norm2(), "kpc2"), want, 3e-6 * (sc + c**2 * 20 + 200), f"interval after {what}")
    ctx.nt(scale_of(t1 - t2) > 0 and scale_of(q1 - q2) > 0)
