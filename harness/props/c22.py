"""C22: angles — remainders by a turn, arithmetic, conversions, trigonometry."""

import operator as op

import jax
import quaxed.numpy as jnp
from plum import convert
from unxt.quantity import AbstractQuantity, UncheckedQuantity

from gens import *
from core import facet

RULE = ("A case is one or two angles (values over many turns or small, integers too; six units; scalar, (3,) or (2,3), "
        "broadcast against each other), held as Angle or quantity, and an operation from a table of 60. Non-trivial: some "
        "value is not zero and, for two operands, the units, classes or shapes differ.")
ASSUMPTIONS = ["NumPy arithmetic on radians is the oracle",
               "comparisons are only checked where the two values differ by more than 1e-9 of their size",
               "lossy unxt behaviour that is not this repository's (NumPy array on the left of an operator, jnp.prod, "
               "integer overflow) is outside of the domain"]

UNITS = ["rad", "deg", "arcmin", "arcsec", "mas", "hourangle"]
TURN = {"rad": 2 * np.pi, "deg": 360.0, "arcmin": 21600.0, "arcsec": 1296000.0, "mas": 1296000000.0, "hourangle": 24.0}


def turns():
    return st.one_of(fl(-3, 3), fl(-200, 200), st.sampled_from([0.0, 0.25, 0.5, 1.0, -0.25, -1.0, 2.0, 1e-4, -1e-4]))


@st.composite
def angle(draw, shapes=SHAPES, kinds=("A", "A", "Q"), elem=None):
    sh = draw(st.sampled_from(shapes))
    return {"shape": sh, "v": draw(arr(sh, elem or turns())), "u": draw(st.sampled_from(UNITS)),
            "k": draw(st.sampled_from(list(kinds)))}


CLS = {"A": Angle, "Q": Q, "U": UncheckedQuantity}


def mk(a):
    v = A(a["v"], a["shape"]) * TURN[a["u"]]
    return CLS[a["k"]](v, a["u"])


def rad(a):
    return A(a["v"], a["shape"]) * 2 * np.pi


def rd(x, p=1):
    """Value of a result in rad**p."""
    un = apu.Unit(str(x.unit)) if not isinstance(x.unit, apu.UnitBase) else x.unit
    v = np.asarray(x.value, dtype=float)
    return v * un.to(apu.rad**p) if p else v * un.to(apu.one)


# name -> (function, reference, power of the result: 1 means an Angle)
UN = {
    "neg": (op.neg, np.negative, 1), "pos": (op.pos, np.positive, 1), "abs": (abs, np.abs, 1),
    "jnp.abs": (jnp.abs, np.abs, 1), "jnp.negative": (jnp.negative, np.negative, 1),
    "x*k": (lambda x: x * 2.5, lambda x: x * 2.5, 1), "k*x": (lambda x: 3 * x, lambda x: x * 3, 1),
    "x/k": (lambda x: x / 4, lambda x: x / 4, 1), "x*arr": (lambda x: x * jax.numpy.arange(1.0, 4.0), lambda x: x * np.arange(1.0, 4.0), 1),
    "arr*x": (lambda x: jax.numpy.arange(1.0, 4.0) * x, lambda x: x * np.arange(1.0, 4.0), 1),
    "sum": (jnp.sum, np.sum, 1), "mean": (jnp.mean, np.mean, 1), "min": (jnp.min, np.min, 1), "max": (jnp.max, np.max, 1),
    "sort": (lambda x: jnp.sort(jnp.ravel(x)), lambda x: np.sort(np.ravel(x)), 1),
    "cumsum": (lambda x: jnp.cumsum(jnp.ravel(x)), lambda x: np.cumsum(np.ravel(x)), 1),
    "ravel": (jnp.ravel, np.ravel, 1), "flip": (lambda x: jnp.flip(jnp.ravel(x)), lambda x: np.ravel(x)[::-1], 1),
    "expand": (lambda x: jnp.expand_dims(x, 0), lambda x: x[None], 1),
    "stack": (lambda x: jnp.stack([x, -x]), lambda x: np.stack([x, -x]), 1),
    "concat": (lambda x: jnp.concatenate([jnp.ravel(x), jnp.ravel(2 * x)]), lambda x: np.concatenate([np.ravel(x), np.ravel(2 * x)]), 1),
    "broadcast": (lambda x: jnp.broadcast_to(x, (4, *x.shape)), lambda x: np.broadcast_to(x, (4, *np.shape(x))), 1),
    "where": (lambda x: jnp.where(x > Angle(0.0, "rad"), x, -x), np.abs, 1),
    "index": (lambda x: jnp.ravel(x)[0], lambda x: np.ravel(x)[0], 1), "x.T": (lambda x: x.T, np.transpose, 1),
    "diff": (lambda x: jnp.diff(jnp.concatenate([jnp.ravel(x), jnp.ravel(-x)])), lambda x: np.diff(np.concatenate([np.ravel(x), np.ravel(-x)])), 1),
    "sin": (jnp.sin, np.sin, 0), "cos": (jnp.cos, np.cos, 0), "tan": (jnp.tan, np.tan, 0),
    "sin2+cos2": (lambda x: jnp.sin(x) ** 2 + jnp.cos(x) ** 2, lambda x: np.ones_like(x), 0),
    "x**2": (lambda x: x**2, lambda x: x**2, 2), "x**3": (lambda x: x**3, lambda x: x**3, 3),
    "square": (jnp.square, np.square, 2), "power": (lambda x: jnp.power(abs(x), 1.5), lambda x: np.abs(x) ** 1.5, 1.5),
    "abs**0.5": (lambda x: abs(x) ** 0.5, lambda x: np.sqrt(np.abs(x)), 0.5),
    "sqrt": (lambda x: jnp.sqrt(abs(x)), lambda x: np.sqrt(np.abs(x)), 0.5),
    "cbrt": (jnp.cbrt, np.cbrt, 1 / 3), "var": (jnp.var, np.var, 2),
    "x*x": (lambda x: x * x, lambda x: x * x, 2), "1/x": (lambda x: 1 / (abs(x) + Angle(1.0, "rad")), lambda x: 1 / (np.abs(x) + 1), -1),
    "reciprocal": (lambda x: jnp.reciprocal(abs(x) + Angle(1.0, "rad")), lambda x: 1 / (np.abs(x) + 1), -1),
    "x**-1": (lambda x: (abs(x) + Angle(1.0, "rad")) ** -1, lambda x: 1 / (np.abs(x) + 1), -1),
    "x/x": (lambda x: (x + Angle(1.0, "rad")) / (abs(x) + Angle(1.0, "rad")), lambda x: (x + 1) / (np.abs(x) + 1), 0),
    "dot": (lambda x: jnp.dot(jnp.ravel(x), jnp.ravel(x)), lambda x: np.dot(np.ravel(x), np.ravel(x)), 2),
    "matmul": (lambda x: jnp.ravel(x) @ jnp.ravel(2 * x), lambda x: np.dot(np.ravel(x), np.ravel(2 * x)), 2),
    "vdot": (lambda x: jnp.vdot(x, x), lambda x: np.vdot(x, x), 2),
    "outer": (lambda x: jnp.outer(jnp.ravel(x), jnp.ravel(x)), lambda x: np.outer(np.ravel(x), np.ravel(x)), 2),
    "norm": (lambda x: jnp.linalg.norm(jnp.ravel(x)), lambda x: np.linalg.norm(np.ravel(x)), None),
    "hypot": (lambda x: jnp.hypot(x, 2 * x), lambda x: np.hypot(x, 2 * x), None),
    "x*length": (lambda x: x * Q(2.0, "rad"), lambda x: 2 * x, 2),
    "std": (jnp.std, np.std, None),
}


def kind(x, p, what):
    """Angles where the result is an angle, plain quantities otherwise."""
    if p == 1:
        check(type(x) is Angle, f"{what}: {type(x)} instead of an Angle")
    else:
        check(isinstance(x, AbstractQuantity) and not isinstance(x, Angle) or p is None, f"{what}: {type(x)}")


@st.composite
def s_unary(draw):
    return {"op": draw(st.sampled_from(sorted(UN))), "x": draw(angle(kinds=("A",))), "jit": draw(st.integers(0, 3)) == 0}


@facet("C22", "unary", s_unary, quick=600, thorough=6000, modes=("x64", "f32"), f32_frac=0.2, shards=2)
def unary(case, ctx):
    """Functions of one angle."""
    f, g, p = UN[case["op"]]
    a = case["x"]
    x, X = mk(a), rad(a)
    if case["op"] == "tan" and np.any(np.abs(np.cos(X)) < 0.05):
        raise Skip("near a pole")
    want = np.asarray(g(X), dtype=float)
    got = jax.jit(f)(x) if case["jit"] and case["op"] not in ("abs**0.5", "power") else f(x)
    what = f"{case['op']}({a['u']})"
    if p is None:
        check(isinstance(got, AbstractQuantity), f"{what}: {type(got)}")
        p = 1
    else:
        kind(got, p, what)
    big = scale_of(X)
    tl = ctx.tol(1e-12, 3e-5)
    atol = tl * {0: max(1.0, big)}.get(p, max(big, 1e-3) ** abs(p)) * max(1, X.size)
    if case["op"] == "tan":
        atol *= 500
    if case["op"] in ("1/x", "reciprocal", "x**-1"):
        atol = tl
    if p in (0.5, 1 / 3):
        atol = tl * max(1.0, big)
    close(rd(got, p), want, atol, what, rtol=tl)
    ctx.nt(big > 0)
    ctx.label(case["op"])


BI = {"+": (op.add, np.add, 1), "-": (op.sub, np.subtract, 1), "*": (op.mul, np.multiply, 2), "/": (op.truediv, np.divide, 0),
      "<": (op.lt, np.less, "b"), "<=": (op.le, np.less_equal, "b"), ">": (op.gt, np.greater, "b"), ">=": (op.ge, np.greater_equal, "b"),
      "==": (op.eq, np.equal, "b"), "!=": (op.ne, np.not_equal, "b"), "maximum": (jnp.maximum, np.maximum, 1),
      "minimum": (jnp.minimum, np.minimum, 1), "atan2": (jnp.arctan2, np.arctan2, 1),
      "where": (lambda x, y: jnp.where(x > y, x, y), np.maximum, 1),
      "@": (lambda x, y: jnp.ravel(x) @ jnp.ravel(y), lambda x, y: np.ravel(x) @ np.ravel(y), 2),
      "dot": (lambda x, y: jnp.dot(jnp.ravel(x), jnp.ravel(y)), lambda x, y: np.dot(np.ravel(x), np.ravel(y)), 2)}
SAME = {"@", "dot"}


@st.composite
def s_binary(draw):
    o = draw(st.sampled_from(sorted(BI)))
    ka, kb = draw(st.sampled_from([("A", "A"), ("A", "A"), ("A", "Q"), ("Q", "A")]))
    sh = draw(st.sampled_from([([], []), ([3], [3]), ([2, 3], [2, 3]), ([2, 3], [3]), ([3], []), ([], [2, 3])]))
    if o in SAME:
        sh = (sh[0], sh[0])
    return {"op": o, "x": draw(angle([list(sh[0])], (ka,))), "y": draw(angle([list(sh[1])], (kb,)))}


@facet("C22", "binary", s_binary, quick=600, thorough=6000, modes=("x64", "f32"), f32_frac=0.2, shards=2)
def binary(case, ctx):
    """Functions of two angles, and of an angle and a quantity."""
    o, a, b = case["op"], case["x"], case["y"]
    f, g, p = BI[o]
    X, Y = rad(a), rad(b)
    if o == "/" and np.any(np.abs(Y) < 1e-3):
        raise Skip("division by almost nothing")
    sc = scale_of(X, Y)
    if p == "b" or o in ("where", "atan2"):
        tie = np.abs(X - Y) <= ctx.tol(1e-9, 1e-5) * sc
        if o == "atan2":
            tie = (np.abs(Y) < 1e-3) | (np.abs(X) < 1e-3)
        if np.any(tie) and not (p == "b" and a["u"] == b["u"] and not ctx.f32):
            raise Skip("borderline")
    x, y = mk(a), mk(b)
    got = f(x, y)
    what = f"{a['k']}[{a['u']}] {o} {b['k']}[{b['u']}]"
    want = np.asarray(g(X, Y))
    if p == "b":
        v = np.asarray(got)
        check(v.dtype == bool and v.shape == want.shape and np.array_equal(v, want), f"{what}: {v.tolist()}, expected {want.tolist()}")
    else:
        if p == 1:
            check(type(got) is Angle or "Q" in (a["k"], b["k"]) and isinstance(got, AbstractQuantity), f"{what}: {type(got)}")
        else:
            kind(got, p, what)
        tl = ctx.tol(1e-12, 3e-5)
        atol = {1: sc, 2: sc * sc * max(1, X.size), 0: 0.0}[int(p)] * tl if o != "atan2" else tl * 10
        close(rd(got, int(p)), want, atol, what, rtol=4 * tl)
    ctx.nt(sc > 0 and (a["u"] != b["u"] or a["k"] != b["k"] or a["shape"] != b["shape"]))
    ctx.label(o)


@st.composite
def s_wrap(draw):
    a = draw(angle(kinds=("A", "A", "Q"), elem=st.one_of(turns(), fl(-20000, 20000))))
    return {"x": a, "p": draw(st.sampled_from([1.0, 1.0, 1.0, 0.5, 0.25, 2.0, 0.3, -1.0])), "pu": draw(st.sampled_from(UNITS)),
            "pk": draw(st.sampled_from(["A", "A", "Q"])), "how": draw(st.sampled_from(["%", "mod", "remainder"]))}


@facet("C22", "wrap", s_wrap, quick=240, thorough=4000, modes=("x64", "f32"), f32_frac=0.25)
def wrap(case, ctx):
    """The remainder by a turn is in range, a whole number of turns away, and stays when wrapped again."""
    a = case["x"]
    x = mk(a)
    P = case["p"] * 2 * np.pi
    per = CLS[case["pk"]](case["p"] * TURN[case["pu"]], case["pu"])
    f = {"%": op.mod, "mod": jnp.mod, "remainder": jnp.remainder}[case["how"]]
    r = f(x, per)
    check(type(r) is (Angle if a["k"] == "A" else type(x)), f"{type(x)} % {type(per)} is {type(r)}")
    X = rd(x)  # what the code was given, after rounding of the unit
    R = rd(r)
    eps = ctx.tol(5e-15, 2e-6)
    tol = eps * max(abs(P), scale_of(X)) * 2
    lo, hi = min(P, 0.0), max(P, 0.0)
    check(R.shape == X.shape, f"shape {R.shape}")
    check(bool(np.all((R >= lo - tol) & (R <= hi + tol))), f"{X.tolist()} % {P}: {R.tolist()} is out of range")
    if a["u"] == case["pu"]:  # no unit conversion: exactly in range
        rv, pv = np.asarray(r.value), np.asarray(per.value, dtype=np.asarray(r.value).dtype)
        ok = (rv >= 0) & (rv <= pv) if P > 0 else (rv <= 0) & (rv >= pv)
        check(bool(np.all(ok)), f"{np.asarray(x.value).tolist()} % {pv}: {rv.tolist()} is out of range")
    n = (X - R) / P
    check(bool(np.all(np.abs(n - np.round(n)) <= tol / abs(P) * 4)), f"{X.tolist()} % {P}: {R.tolist()} is {n.tolist()} turns away")
    rr = f(r, per)
    inside = (R > lo + tol) & (R < hi - tol)
    close(np.where(inside, rd(rr), 0), np.where(inside, R, 0), tol, "wrapped twice")
    ctx.nt(bool(np.any((X < lo) | (X >= hi))))
    ctx.label(f"{a['u']}%{case['pu']}")


AZ = {"cyl": ("phi", dict(rho=Q(2.0, "kpc"), z=Q(1.0, "kpc"))), "sph": ("phi", dict(r=Q(2.0, "kpc"), theta=Q(1.0, "rad"))),
      "math": ("theta", dict(r=Q(2.0, "kpc"), phi=Q(1.0, "rad"))), "lonlat": ("lon", dict(lat=Q(0.3, "rad"), distance=Q(2.0, "kpc"))),
      "polar": ("phi", dict(r=Q(2.0, "kpc"))), "prolate": ("phi", dict(mu=Q(3.0, "kpc2"), nu=Q(0.5, "kpc2"), Delta=Q(1.0, "kpc"))),
      "two": ("phi", dict(theta=Q(1.0, "rad")))}


@st.composite
def s_az(draw):
    return {"rep": draw(st.sampled_from(sorted(AZ))), "x": draw(angle(kinds=("A", "Q", "Q"))), "ap": draw(st.integers(0, 3)) == 0}


@facet("C22", "azimuth", s_az, quick=200, thorough=2000, modes=("x64", "f32"), f32_frac=0.25)
def azimuth(case, ctx):
    """Azimuths of positions are stored as angles of the same direction; given as quantities, in [0, 1 turn)."""
    name, kw = AZ[case["rep"]]
    a = case["x"]
    x = mk(a)
    given = x if not case["ap"] else np.asarray(x.value) * apu.Unit(a["u"])
    cls = cx.vecs.TwoSpherePos if case["rep"] == "two" else POS[case["rep"]]
    v = cls(**kw, **{name: given})
    s = getattr(v, name)
    check(type(s) is Angle, f"{cls.__name__}.{name} is {type(s)}")
    X, S = rd(x), rd(s)
    tol = ctx.tol(1e-14, 2e-6) * max(2 * np.pi, scale_of(X)) * 2
    check(S.shape == X.shape, "shape")
    wraps = case["ap"] or a["k"] == "Q"  # an Angle is stored as it is
    if wraps:
        check(bool(np.all((S >= 0) & (S <= 2 * np.pi * (1 + ctx.tol(1e-15, 3e-7))))), f"{cls.__name__}.{name} of {X.tolist()} is {S.tolist()}")
    close_ang(S, X, tol, f"{cls.__name__}.{name}")
    inside = (X > tol) & (X < 2 * np.pi - tol) if wraps else np.ones(X.shape, bool)
    close(np.where(inside, S, 0), np.where(inside, X, 0), tol, "azimuth in range is unchanged")
    ctx.nt(bool(np.any((X < 0) | (X >= 2 * np.pi))))
    ctx.label(case["rep"])


@st.composite
def s_conv(draw):
    return {"x": draw(angle(kinds=("A",))), "to": draw(st.sampled_from(UNITS)), "bad": draw(st.sampled_from(["m", "", "km/s", "rad2", "1/deg", "rad/s", "mag"]))}


@facet("C22", "convert", s_conv, quick=160, thorough=1500, modes=("x64", "f32"), f32_frac=0.2)
def conversions(case, ctx):
    """Units and classes change, the angle stays; only angles are angles."""
    a, to = case["x"], case["to"]
    x, X = mk(a), rad(a)
    tl = ctx.tol(1e-13, 1e-6) * max(scale_of(X), 1e-9)
    un = u.unit(a["u"])
    outs = {"uconvert": (x.uconvert(to), Angle, to), "u.uconvert": (u.uconvert(to, x), Angle, to), "to": (x.to(to), Angle, to),
            "Quantity": (convert(x, Q), Q["angle"], a["u"]), "Unchecked": (convert(x, UncheckedQuantity), UncheckedQuantity, a["u"]),
            "Q.from_": (Q.from_(x), Q["angle"], a["u"]), "Angle.from_": (Angle.from_(x), Angle, a["u"]),
            "Angle from Q": (convert(Q(x.value, a["u"]), Angle), Angle, a["u"]), "Angle.from_ Q": (Angle.from_(Q(x.value, a["u"])), Angle, a["u"]),
            "from U": (convert(UncheckedQuantity(x.value, a["u"]), Angle), Angle, a["u"]),
            "from list": (Angle.from_(np.ravel(np.asarray(x.value)).tolist(), a["u"]).reshape(*a["shape"]), Angle, a["u"]),
            "from_ with unit": (Angle.from_(x, to), Angle, to),
            "astropy": (Angle.from_(np.asarray(x.value) * apu.Unit(a["u"])), Angle, a["u"])}
    for k, (o, cls, unit) in outs.items():
        check(type(o) is cls, f"{k}: {type(o)}")
        check(u.unit(unit) == o.unit, f"{k}: unit {o.unit}, expected {unit}")
        close(rd(o), X, tl, k, rtol=ctx.tol(1e-14, 1e-6))
    ap = convert(x, apu.Quantity)
    close(ap.to_value("rad"), X, tl, "to astropy", rtol=ctx.tol(1e-14, 1e-6))
    close(np.asarray(u.ustrip(to, x), dtype=float) * 2 * np.pi / TURN[to], X, tl, "ustrip", rtol=ctx.tol(1e-13, 1e-6))
    check(convert(x, Angle) is x, "an angle to an Angle is the same object")
    for f in (lambda: Angle(x.value, case["bad"]), lambda: Angle.from_(Q(x.value, case["bad"])), lambda: convert(Q(x.value, case["bad"]), Angle)):
        try:
            r = f()
        except ValueError:
            pass
        else:
            raise Violation(f"unit {case['bad']!r} is accepted as an angle: {r!r}")
    check(un == x.unit, "unit")
    ctx.nt(scale_of(X) > 0 and to != a["u"])
    ctx.label(f"{a['u']}->{to}")


@st.composite
def s_grad(draw):
    return {"x": draw(angle([[], [3]], ("A",), fl(-2, 2))), "f": draw(st.sampled_from(["sin", "cos", "tan", "square", "mod", "atan2"]))}


@facet("C22", "transforms", s_grad, quick=80, thorough=800)
def transforms(case, ctx):
    """vmap and derivatives of functions of an angle."""
    a = case["x"]
    x, X = mk(a), rad(a)
    if case["f"] == "tan" and np.any(np.abs(np.cos(X)) < 0.1) or case["f"] == "mod" and np.any(np.abs(X / (2 * np.pi) - np.round(X / (2 * np.pi))) < 1e-6):
        raise Skip("near a pole")
    fs = {"sin": (jnp.sin, np.sin, np.cos), "cos": (jnp.cos, np.cos, lambda t: -np.sin(t)), "tan": (jnp.tan, np.tan, lambda t: 1 / np.cos(t) ** 2),
          "square": (lambda t: t * t, lambda t: t * t, lambda t: 2 * t), "mod": (lambda t: t % Angle(360.0, "deg"), lambda t: np.mod(t, 2 * np.pi), np.ones_like),
          "atan2": (lambda t: jnp.arctan2(t, Angle(1.0, "rad")), lambda t: np.arctan(t), lambda t: 1 / (1 + t * t))}
    f, g, d = fs[case["f"]]
    out = jax.vmap(f)(x) if X.ndim else f(x)
    p = {"square": 2, "mod": 1, "atan2": 1}.get(case["f"], 0)
    close(rd(out, p), g(X), 1e-9 * max(1.0, scale_of(g(X))), f"{case['f']} under vmap")
    # derivative with respect to the value in the angle's own unit
    un = a["u"]
    val_of = lambda v: rd_j(f(Angle(v, un)), p)  # noqa: E731
    for i, xi in enumerate(np.ravel(X)):
        v0 = jax.numpy.asarray(np.ravel(np.asarray(x.value))[i])
        got = float(jax.jacfwd(val_of)(v0)) / (2 * np.pi / TURN[un])
        got2 = float(jax.grad(val_of)(v0)) / (2 * np.pi / TURN[un])
        want = float(d(xi))
        if not (abs(got - want) <= 1e-8 * max(1.0, abs(want)) and abs(got2 - want) <= 1e-8 * max(1.0, abs(want))):
            raise Violation(f"d {case['f']} at {xi} rad: {got}, {got2}, expected {want}")
    ctx.nt(scale_of(X) > 0)
    ctx.label(case["f"])


def rd_j(x, p):
    un = apu.Unit(str(x.unit)) if not isinstance(x.unit, apu.UnitBase) else x.unit
    return x.value * (un.to(apu.rad**p) if p else un.to(apu.one))
