"""C15: N-dimensional Cartesian vectors behave like arrays of coordinates."""

import jax
import quaxed.numpy as jnp
from plum import convert
from unxt.quantity import AbstractQuantity, UncheckedQuantity

from gens import *
from core import facet

RULE = ("A case is a dimension 1-6, one or more batches of N-dimensional positions, velocities or accelerations in "
        "own units, and an operation, a reader, or a history of 1-6 operations. Non-trivial: at least two distinct "
        "components.")
ASSUMPTIONS = ["NumPy arrays with a last component axis are the oracle",
               "arithmetic between N-dimensional velocities raises and is not part of the property"]
V = cx.vecs
CLS = {"pos": (V.CartesianPosND, "q", ["kpc", "pc", "km"]), "vel": (V.CartesianVelND, "d_q", ["kpc/Myr", "km/s", "pc/yr"]),
       "acc": (V.CartesianAccND, "d2_q", ["kpc/Myr2", "km/s2", "m/s2"])}
BASE = {"pos": "kpc", "vel": "kpc/Myr", "acc": "kpc/Myr2"}
SH = [[], [3], [2, 3], [1], [2, 1, 3], [4]]


def un_of(kind):
    us = CLS[kind][2]
    return us[:2] if os.environ.get("VERIF_MODE") == "f32" else us


@st.composite
def operand(draw, kind, n, shape):
    return {"kind": kind, "n": n, "shape": shape, "x": draw(points(shape, n)), "u": draw(st.sampled_from(un_of(kind)))}


def make(o, how="init"):
    cls, name, _ = CLS[o["kind"]]
    a = A(o["x"], o["shape"], o["n"]) * usc(BASE[o["kind"]], o["u"])
    if how == "init":
        return cls(Q(a, o["u"]))
    if how == "from_q":
        return cls.from_(Q(a, o["u"]))
    if how == "from_arr":
        return cls.from_(a, o["u"])
    if how == "list":
        return cls.from_(a.tolist(), o["u"])
    return cls.from_({name: Q(a, o["u"])})


def read(x, kind):
    return val(getattr(x, CLS[kind][1]), BASE[kind])


@st.composite
def s_read(draw):
    kind = draw(st.sampled_from(["pos", "vel", "acc"]))
    return {"o": draw(operand(kind, draw(st.integers(1, 6)), draw(st.sampled_from(SH)))),
            "how": draw(st.sampled_from(["init", "from_q", "from_arr", "list", "map"])),
            "to": draw(st.sampled_from(un_of(kind))), "t": draw(fl(-4, 4)), "tu": draw(st.sampled_from(["Myr", "yr"]))}


@facet("C15", "readers", s_read, quick=260, thorough=5000, modes=("x64", "f32"), f32_frac=0.2, shards=2)
def readers(case, ctx):
    """Construction, norm, units, conversion to quantities, multiplication by a time."""
    o = case["o"]
    kind, n, shape = o["kind"], o["n"], tuple(o["shape"])
    cls, name, _ = CLS[kind]
    a = A(o["x"], shape, n)
    x = make(o, case["how"])
    tol = ctx.tol(1e-12, 2e-6) * max(1, scale_of(a))
    check(type(x) is cls, f"{type(x)}")
    check(x.shape == shape and x.ndim == len(shape) and x.size == size(shape), f"shape {x.shape} {x.ndim} {x.size}")
    close(read(x, kind), a, tol, "stored")
    close(val(x.norm(), BASE[kind]), np.linalg.norm(a, axis=-1), 3 * tol, "norm")
    close(val(abs(x), BASE[kind]), np.linalg.norm(a, axis=-1), 3 * tol, "abs")
    key = {"pos": "length", "vel": "speed", "acc": "acceleration"}[kind]
    y = x.uconvert({key: case["to"]})
    check(type(y) is cls and str(getattr(y, name).unit) == str(u.unit(case["to"])), f"units {y}")
    close(read(y, kind), a, tol, "uconvert")
    z = -x
    check(type(z) is cls, f"-x is {type(z)}")
    close(read(z, kind), -a, tol, "neg")
    close(read(+x, kind), a, tol, "pos")
    eq = np.asarray(x == y) if case["to"] == o["u"] else None
    if eq is not None and not ctx.f32:
        check(bool(np.all(eq)), "x == x")
    if kind == "pos":
        for t in (Q, UncheckedQuantity, AbstractQuantity, *((Distance,) if np.all(a >= 0) else ())):
            q = convert(x, t)
            check(isinstance(q, t), f"convert gives {type(q)}")
            close(val(q, "kpc"), a, tol, f"convert to {t.__name__}")
        close(read(cls.from_(convert(x, Q)), kind), a, tol, "round trip")
        w = x.represent_as(cls)
    else:
        t = Q(case["t"] * usc("Myr", case["tu"]), case["tu"])
        w = x * t
        low = {"vel": "pos", "acc": "vel"}[kind]
        check(type(w) is CLS[low][0], f"rate times time is {type(w)}")
        close(read(w, low), a * case["t"], 10 * tol, "rate times time")
        w = x.represent_as(cls)
    check(type(w) is cls, f"represent_as {type(w)}")
    close(read(w, kind), a, tol, "represent_as")
    ctx.nt(len(set(np.ravel(a).tolist())) > 1)
    ctx.label(f"{kind}{n}")


@st.composite
def s_hist(draw):
    n = draw(st.integers(1, 6))
    shape = draw(st.sampled_from([[], [3], [2, 3]]))
    pool = [draw(operand("pos", n, shape)), draw(operand("pos", n, draw(st.sampled_from([shape, shape, []]))))]
    ops = draw(st.lists(st.fixed_dictionaries({
        "op": st.sampled_from(["add", "sub", "neg", "mul", "rmul", "div", "jadd", "jsub", "uconv", "trans", "jit", "vel"]),
        "i": st.integers(0, 7), "j": st.integers(0, 7), "s": generic_coord(),
        "x": st.lists(fl(-5, 5), min_size=n, max_size=n)}), min_size=1, max_size=6))
    return {"pool": pool, "ops": ops}


@facet("C15", "history", s_hist, quick=140, thorough=3000, modes=("x64", "f32"), f32_frac=0.2, shards=2)
def history(case, ctx):
    """Sequences of arithmetic against the array model."""
    pool = [(make(o), A(o["x"], o["shape"], o["n"])) for o in case["pool"]]
    sc = max([1.0] + [scale_of(a) for _, a in pool])
    n = case["pool"][0]["n"]
    moved = False
    for o in case["ops"]:
        (x, a), (y, b) = pool[o["i"] % len(pool)], pool[o["j"] % len(pool)]
        s, d = o["s"], np.array(o["x"])
        op = o["op"]
        fn = {"add": lambda: (x + y, a + b), "sub": lambda: (x - y, a - b), "neg": lambda: (-x, -a),
              "mul": lambda: (s * x, s * a), "rmul": lambda: (x * s, s * a), "div": lambda: (x / s, a / s),
              "jadd": lambda: (jnp.add(x, y), a + b), "jsub": lambda: (jnp.subtract(x, y), a - b),
              "uconv": lambda: (x.uconvert({"length": "pc"}), a),
              "trans": lambda: (cx.ops.GalileanSpatialTranslation(V.CartesianPosND(Q(d, "kpc")))(x), a + d),
              "jit": lambda: (jax.jit(lambda p, q: p - q)(x, y), a - b),
              "vel": lambda: (x + V.CartesianVelND(Q(d, "kpc/Myr")) * Q(s, "Myr"), a + s * d)}[op]
        try:
            z, c = fn()
        except ValueError:  # smaller operand on the left of a jitted or broadcast operation
            if a.shape != b.shape:
                raise Skip from None
            raise
        check(type(z) is V.CartesianPosND, f"{op}: {type(z)}")
        sc = max(sc, scale_of(c), 50)
        close(read(z, "pos"), c, ctx.tol(1e-12, 1e-5) * sc, op)
        check(z.shape == c.shape[:-1], f"{op}: shape {z.shape}")
        if scale_of(c) < 1e6:
            pool.append((z, c))
        moved |= op != "uconv"
    ctx.nt(moved and n > 1)


@st.composite
def s_shape(draw):
    kind = draw(st.sampled_from(["pos", "vel", "acc"]))
    shape = draw(st.lists(st.sampled_from([2, 3, 1, 4]), min_size=1, max_size=3))
    from props.c11 import index
    return {"o": draw(operand(kind, draw(st.integers(1, 5)), shape)), "idx": draw(index(shape)),
            "perm": draw(st.integers(0, 5)), "neg": draw(st.booleans())}


@facet("C15", "shape_ops", s_shape, quick=200, thorough=4000, shards=2)
def shape_ops(case, ctx):
    """Index, iterate, transpose and reshape the batch axes; the component axis stays last."""
    from props import c11
    o = case["o"]
    kind, n, shape = o["kind"], o["n"], tuple(o["shape"])
    a = A(o["x"], shape, n)
    x = make(o)

    def same(y, b, what):
        check(type(y) is CLS[kind][0], f"{what}: {type(y)}")
        check(y.shape == b.shape[:-1], f"{what}: shape {y.shape}, expected {b.shape[:-1]}")
        close(read(y, kind), b, 1e-12 * max(1, scale_of(a)), what)

    k = len(shape)
    same(x.T, a.transpose(*range(k)[::-1], k), "T")
    if k >= 2:
        same(x.mT, np.swapaxes(a, -3, -2), "mT")
    same(x.flatten(), a.reshape(-1, n), "flatten")
    same(x.ravel(), a.reshape(-1, n), "ravel")
    m = size(shape)
    same(x.reshape(m), a.reshape(m, n), "reshape")
    same(x.reshape(1, m), a.reshape(1, m, n), "reshape 2")
    same(x.reshape((m, 1)), a.reshape(m, 1, n), "reshape tuple")
    divs = [d for d in range(1, m + 1) if m % d == 0]
    d = divs[case["perm"] % len(divs)]
    tags = np.arange(m).reshape(shape)
    for order in ("C", "F"):
        same(x.reshape(d, -1, order=order), a.reshape(m, n)[tags.reshape(d, -1, order=order)], f"reshape {order}")
    check(len(x) == shape[0], "len")
    for i, y in enumerate(x):
        same(y, a[i], "iter")
    check(i + 1 == shape[0], "iteration length")
    ix = c11.to_index(case["idx"])
    tags = np.arange(size(shape)).reshape(shape)
    same(x[ix], a.reshape(-1, n)[tags[ix]], f"index {case['idx']}")
    same(x[0], a[0], "[0]")
    same(x[..., -1], a[..., -1, :], "[..., -1]")
    ctx.nt(n > 1 and size(shape) > 1)
