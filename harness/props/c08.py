"""C08: velocity and acceleration arithmetic is component-exact and dimensional."""

import quaxed.lax as qlax
import quaxed.numpy as jnp

from gens import *
from core import facet

RULE = ("A case is one or two batches of velocities or accelerations of one class with own units per "
        "component, a scalar or a time, and an operation (operator or function form). Supported "
        "operations must give the component-wise result in the right class; all other combinations "
        "must raise or give that same result. Non-trivial: a result was returned and is not zero.")
ASSUMPTIONS = ["component-wise NumPy arithmetic in kpc, Myr, rad is the oracle"]

ALL = list(POS)
CART = ["cart3", "cart2", "cart1"]


def rate_units(kind, order, lu, tu, au):
    t = tu if order == 1 else f"{tu}2"
    return {"L": f"{lu}/{t}", "L2": f"{lu}2/{t}"}.get(kind, f"{au}/{t}")


@st.composite
def rate(draw, rep, order, shape, f32=False):
    comps = ref.COMPS[rep]
    units = [rate_units(kd, order, draw(st.sampled_from(["kpc", "pc"] if f32 else LUNITS)),
                        draw(st.sampled_from(["Myr"] if f32 else TUNITS)),
                        draw(st.sampled_from(AUNITS))) for kd in comps.values()]
    return {"rep": rep, "order": order, "shape": shape, "units": units,
            "v": draw(points(shape, len(comps)))}


def arrv(o):
    """Reference component values, in kpc, Myr, rad."""
    return A(o["v"], o["shape"], len(o["units"]))


def base_units(o):
    return [rate_units(kd, o["order"], "kpc", "Myr", "rad") for kd in ref.COMPS[o["rep"]].values()]


def make(o):
    cls, pre = (VEL, "d_") if o["order"] == 1 else (ACC, "d2_")
    v = arrv(o)
    kw = {}
    for i, (k, un, bu) in enumerate(zip(ref.COMPS[o["rep"]], o["units"], base_units(o))):
        kw[pre + k] = Q(v[..., i] * usc(bu, un), un)
    return cls[o["rep"]](**kw)


def read(vec, rep, order):
    cls, pre = {0: (POS, ""), 1: (VEL, "d_"), 2: (ACC, "d2_")}[order]
    check(type(vec) is cls[rep], f"result is {type(vec).__name__}, expected {cls[rep].__name__}")
    out = []
    for k, kd in ref.COMPS[rep].items():
        bu = rate_units(kd, order, "kpc", "Myr", "rad") if order else kind_unit(kd, "kpc")
        out.append(val(getattr(vec, pre + k), bu))
    return np.stack(np.broadcast_arrays(*out), -1)


def expect(f, required, ctx, judge, what):
    try:
        out = f()
    except Exception as e:
        if required:
            raise
        ctx.label("raised " + what)
        return
    judge(out)
    ctx.label("ok " + what)


@st.composite
def bin_case(draw):
    f32 = os.environ.get("VERIF_MODE") == "f32"
    rep = draw(st.sampled_from(CART * 4 + ALL))
    order = draw(st.sampled_from([1, 2]))
    shape = draw(st.sampled_from(SHAPES))
    return {"a": draw(rate(rep, order, shape, f32)), "b": draw(rate(rep, order, shape, f32)),
            "op": draw(st.sampled_from(["add", "sub", "jadd", "jsub", "ladd", "lsub"]))}


BIN = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "jadd": jnp.add, "jsub": jnp.subtract,
       "ladd": qlax.add, "lsub": qlax.sub}
NOSUB = {("cart2", 1), ("cart2", 2), ("cart1", 1)}


@facet("C08", "binary", bin_case, quick=220, thorough=3000, modes=("x64", "f32"), shards=4, f32_frac=0.2)
def binary(case, ctx):
    """Sums and differences add component values whatever the units."""
    a, b, op = case["a"], case["b"], case["op"]
    key = (a["rep"], a["order"])
    add = "add" in op
    want = arrv(a) + arrv(b) if add else arrv(a) - arrv(b)
    required = a["rep"] in CART and (add or key not in NOSUB)
    va, vb = make(a), make(b)
    tol = ctx.tol(1e-12, 1e-5) * max(1.0, scale_of(arrv(a), arrv(b)))

    def judge(out):
        close(read(out, *key), want, tol, f"{key} {op}")
        ctx.nt(scale_of(want) > 0)

    expect(lambda: BIN[op](va, vb), required, ctx, judge, f"{op[-3:]} {key}")
    close(read(va, *key), arrv(a), tol, "left operand changed")


@st.composite
def scal_case(draw):
    f32 = os.environ.get("VERIF_MODE") == "f32"
    rep = draw(st.sampled_from(CART * 2 + ALL))
    order = draw(st.sampled_from([1, 2]))
    return {"a": draw(rate(rep, order, draw(st.sampled_from(SHAPES)), f32)),
            "op": draw(st.sampled_from(["neg", "pos", "negneg", "lmul", "lmul", "jmul", "rmul", "div"])),
            "s": draw(st.one_of(fl(-4, 4), st.sampled_from([1.0, -1.0, 2.0, 0.0]))),
            "kind": draw(st.sampled_from(["py", "int", "jnp"]))}


@facet("C08", "scalar", scal_case, quick=200, thorough=3000, modes=("x64", "f32"), shards=4, f32_frac=0.2)
def scalar(case, ctx):
    """Negation, unary plus and scaling act on every component."""
    from props.c07 import mkscalar

    a, op, s = case["a"], case["op"], case["s"]
    if case["kind"] == "int" or (op == "div" and abs(s) < 0.1):
        s = float(round(s)) or -2.0
    ms = mkscalar(s, case["kind"])
    f, fac = {"neg": (lambda v: -v, -1), "pos": (lambda v: +v, 1), "negneg": (lambda v: -(-v), 1),
              "lmul": (lambda v: ms * v, s), "jmul": (lambda v: jnp.multiply(ms, v), s),
              "rmul": (lambda v: v * ms, s), "div": (lambda v: v / ms, 1 / (s or 1))}[op]
    key = (a["rep"], a["order"])
    required = op in ("neg", "pos", "negneg") or (op in ("lmul", "jmul") and a["rep"] in ("cart1", "cart2"))
    want = fac * arrv(a)

    def judge(out):
        close(read(out, *key), want, ctx.tol(1e-12, 1e-5) * max(1.0, scale_of(arrv(a), want)), f"{op}({s}) {key}")
        ctx.nt(scale_of(want) > 0)

    expect(lambda: f(make(a)), required, ctx, judge, f"{op} {key}")


@st.composite
def time_case(draw):
    f32 = os.environ.get("VERIF_MODE") == "f32"
    rep = draw(st.sampled_from(CART + ALL))
    order = draw(st.sampled_from([1, 2]))
    shape = draw(st.sampled_from(SHAPES))
    power = draw(st.sampled_from([1, 2])) if order == 2 else 1
    a = draw(rate(rep, order, shape, f32))
    if order == power and draw(st.integers(0, 3)) > 0:  # mostly valid positions
        for p in a["v"]:
            for i, (k, kd) in enumerate(ref.COMPS[rep].items()):
                if kd == "L" and k in ("r", "rho", "distance"):
                    p[i] = abs(p[i])
                if kd == "P":
                    p[i] = abs(p[i]) % 3.0
                if kd == "B":
                    p[i] = p[i] % 1.5
        t = draw(fl(0.05, 1))
    else:
        t = draw(fl(-3, 3))
    # a batch of times pairs with the batch of vectors in `vec * time` only: the function form
    # and the right-hand form broadcast it against the component axis
    batch_t = draw(st.booleans())
    return {"a": a, "t": t, "tu": draw(st.sampled_from(["Myr"] if f32 else TUNITS)), "power": power,
            "batch_t": batch_t, "side": "left" if batch_t else draw(st.sampled_from(["left", "right"])),
            "form": "op" if batch_t else draw(st.sampled_from(["op", "jnp"]))}


@facet("C08", "times_time", time_case, quick=240, thorough=3000, modes=("x64", "f32"), shards=6, f32_frac=0.2)
def times_time(case, ctx):
    """velocity x time is a position, acceleration x time a velocity, x time^2 a position."""
    a, n = case["a"], case["power"]
    rep, order = a["rep"], a["order"]
    res = order - n
    t = np.full(a["shape"], case["t"]) if case["batch_t"] else np.asarray(case["t"])
    un = case["tu"] if n == 1 else case["tu"] + "2"
    q = Q(t * usc("Myr" if n == 1 else "Myr2", un), un)
    want = arrv(a) * case["t"]
    vec = make(a)
    mul = jnp.multiply if case["form"] == "jnp" else (lambda x, y: x * y)
    f = (lambda: mul(vec, q)) if case["side"] == "left" else (lambda: mul(q, vec))
    required = (case["side"] == "left" or order == 2) and rep != "prolate"
    if rep not in CART and (case["side"] == "right" or case["form"] == "jnp"):
        required = False  # the function form needs an array view, which these classes lack
    c = {k: want[..., i] for i, k in enumerate(ref.COMPS[rep])}
    if res == 0:
        for k, kd in ref.COMPS[rep].items():
            if kd == "L" and k in ("r", "rho", "distance") and np.any(c[k] < 0):
                required = False
            if kd == "P" and np.any((c[k] < 1e-3) | (c[k] > np.pi - 1e-3)):
                required = False
            if kd == "B" and np.any(np.abs(c[k]) > np.pi / 2 - 1e-3):
                required = False
    elif rep == "prolate":
        required = case["side"] == "left" and case["form"] == "op"
    tol = ctx.tol(1e-10, 1e-4) * max(1.0, scale_of(want))

    def judge(out):
        if res:
            close(read(out, rep, res), want, tol, f"{rep} order {order} * time^{n}")
        elif rep == "prolate":
            raise Violation(f"a prolate position without a focal length: {out}")
        else:
            check(type(out) is POS[rep], f"{type(out)} is not {POS[rep]}")
            close(xyz_of(out, "kpc", rep), ref.to_cart(rep, c), tol * 10, f"{rep} order {order} * time^{n}")
        ctx.nt(scale_of(want) > 0)

    expect(f, required, ctx, judge, f"{rep} {order} t{n} {case['side']}")


@st.composite
def mixed_case(draw):
    ra, rb = draw(st.sampled_from(ALL)), draw(st.sampled_from(ALL))
    oa, ob = draw(st.sampled_from([(1, 2), (2, 1), (1, 1), (2, 2)]))
    if (ra, oa) == (rb, ob):
        rb = "cyl" if ra != "cyl" else "sph"
    return {"a": draw(rate(ra, oa, [])), "b": draw(rate(rb, ob, [])),
            "op": draw(st.sampled_from(["add", "sub", "mul", "wrongtime"]))}


@facet("C08", "undefined", mixed_case, quick=60, thorough=800, modes=("x64",), shards=2)
def undefined(case, ctx):
    """Operations between different kinds of rates, or with a wrong dimension, raise."""
    a, b = make(case["a"]), make(case["b"])
    op = case["op"]
    try:
        if op == "mul":
            out = a * b
        elif op == "wrongtime":
            out = a * Q(2.0, "kpc")
        else:
            out = BIN[op](a, b)
    except Exception:
        ctx.nt()
        ctx.label("raised " + op)
        return
    raise Violation(f"{op} of {type(a).__name__} and {type(b).__name__} returned {out}")
