"""C23: distance, parallax and distance modulus."""

import operator as op

import astropy.coordinates as apyc
import jax
import quaxed.numpy as jnp
from plum import convert
from unxt.quantity import AbstractQuantity, UncheckedQuantity

from coordinax.distance import DistanceModulus, Parallax

from gens import *
from core import facet
from props.c05 import regular

RULE = ("A case is distances over 15 decades (scalar, (3,) or (2,3)) held as a distance, parallax or distance modulus in one of "
        "their units, and a chain of conversions, an arithmetic operation, a position built from them, or an illegal "
        "construction. Non-trivial: the chain changes the kind, or the operation has nonzero operands.")
ASSUMPTIONS = ["d = 1 AU / tan(p) and DM = 5 log10(d / 10 pc) in NumPy are the oracle; Astropy's parallax is the small-angle one",
               "only eager construction can reject a negative parallax"]

LU = ["pc", "kpc", "Mpc", "AU", "km", "m", "lyr"]
F32_LU = ["pc", "kpc", "Mpc", "AU", "lyr"]  # float32 squares overflow in metres
PU = ["mas", "arcsec", "rad", "deg"]
PC_AU = apu.pc.to(apu.AU)
CLS = {"D": Distance, "P": Parallax, "M": DistanceModulus}


def logd():
    """log10 of a distance in parsecs."""
    return st.one_of(fl(-6, 9), fl(0, 5), st.sampled_from([0.0, 1.0, -5.314, 3.0]))


@st.composite
def dist(draw, kinds="DDPM", shapes=SHAPES, elem=None, small=False):
    k = draw(st.sampled_from(list(kinds)))
    sh = draw(st.sampled_from(shapes))
    return {"k": k, "shape": sh, "l": draw(arr(sh, elem or logd())), "u": draw(st.sampled_from((F32_LU if small and os.environ.get("VERIF_MODE") == "f32" else LU) if k == "D" else PU if k == "P" else ["mag"]))}


def pcs(c):
    return 10.0 ** A(c["l"], c["shape"])


def plain(k, d):
    """The distance in parsecs as the plain number of its kind: pc, rad or mag."""
    return d if k == "D" else np.arctan2(1.0, d * PC_AU) if k == "P" else 5 * np.log10(d) - 5


BASE = {"D": "pc", "P": "rad", "M": "mag"}


def mk(c, cls=None):
    k = c["k"]
    v = plain(k, pcs(c)) * (1.0 if k == "M" else usc(BASE[k], c["u"]))
    return (cls or CLS[k])(v, c["u"])


def to_pc(x, what):
    """Read any of the three kinds back to parsecs."""
    k = next((k for k, cl in CLS.items() if type(x) is cl), None)
    check(k is not None, f"{what}: {type(x)}")
    un = apu.Unit(str(x.unit))
    v = np.asarray(x.value, dtype=float)
    if k == "D":
        return v * un.to(apu.pc)
    if k == "P":
        return 1 / np.tan(v * un.to(apu.rad)) / PC_AU
    check(un == apu.mag, f"{what}: unit {un}")
    return 10 ** (v / 5 + 1)


def q_of(x):
    return Q(x.value, x.unit)


# the ways from one kind to another
STEPS = {
    "D": {"D": [lambda x: x.distance, Distance.from_, lambda x: Distance.from_(q_of(x)), lambda x: convert(q_of(x), Distance),
                lambda x: convert(UncheckedQuantity(x.value, x.unit), Distance), lambda x: x.uconvert("AU"), lambda x: Distance.from_(x, "kpc"),
                lambda x: Distance.from_(convert(x, apu.Quantity)), lambda x: convert(convert(x, apu.Quantity), Distance)],
          "P": [lambda x: x.parallax, Parallax.from_, lambda x: Parallax.from_(q_of(x)), lambda x: jax.jit(lambda y: y.parallax)(x)],
          "M": [lambda x: x.distance_modulus, lambda x: jax.jit(lambda y: y.distance_modulus)(x)]},
    "P": {"P": [lambda x: x.parallax, Parallax.from_, lambda x: Parallax.from_(q_of(x)), lambda x: convert(q_of(x), Parallax), lambda x: x.uconvert("deg"),
                lambda x: Parallax.from_(convert(x, apu.Quantity)), lambda x: Parallax(x.value, x.unit, check_negative=False)],
          "D": [lambda x: x.distance, Distance.from_, lambda x: Distance.from_(q_of(x)), lambda x: jax.jit(lambda y: y.distance)(x)],
          "M": [lambda x: x.distance_modulus]},
    "M": {"M": [lambda x: x.distance_modulus, DistanceModulus.from_, lambda x: DistanceModulus.from_(q_of(x)), lambda x: convert(q_of(x), DistanceModulus),
                lambda x: DistanceModulus.from_(np.asarray(x.value) * apu.mag)],
          "D": [lambda x: x.distance, Distance.from_, lambda x: Distance.from_(q_of(x)), lambda x: jax.jit(Distance.from_)(x)],
          "P": [lambda x: x.parallax, lambda x: jax.jit(lambda y: y.parallax)(x)]},
}


@st.composite
def s_chain(draw):
    c = draw(dist())
    k, out = c["k"], []
    for _ in range(draw(st.integers(1, 5))):
        to = draw(st.sampled_from("DPM"))
        out.append([to, draw(st.integers(0, len(STEPS[k][to]) - 1))])
        k = to
    return {"x": c, "chain": out}


@facet("C23", "chain", s_chain, quick=900, thorough=9000, modes=("x64", "f32"), f32_frac=0.25, shards=3)
def chain(case, ctx):
    """Every chain of conversions denotes the starting distance at each step, in class, unit, shape and value."""
    c = case["x"]
    d = pcs(c)
    x = mk(c)
    k = c["k"]
    eps = ctx.tol(3e-15, 3e-6)
    for n, (to, i) in enumerate(case["chain"]):
        what = f"{k}->{to} ({i})"
        y = STEPS[k][to][i](x)
        check(type(y) is CLS[to], f"{what}: {type(y)}")
        check(y.shape == tuple(c["shape"]), f"{what}: shape {y.shape}")
        # rounding: a modulus has absolute precision, an angle near 90 degrees loses digits of 1/tan
        tl = eps * (10 + 3 * n + 4 * np.abs(5 * np.log10(d) - 5) + (PC_AU * d) ** -1 * 4)
        got = to_pc(y, what)
        bad = ~(np.abs(got / d - 1) <= tl)
        check(not np.any(bad), f"{what} after {[s[0] for s in case['chain'][:n]]}: {got.tolist()} pc instead of {d.tolist()} pc")
        if ctx.mode == "x64" and np.all(d > 1e-2):
            ap = apyc.Distance(d * apu.pc)
            v = np.asarray(y.value, dtype=float) * apu.Unit(str(y.unit))
            if to == "M":
                close(v.to_value("mag"), ap.distmod.to_value("mag"), 1e-10, f"{what}: Astropy's modulus")
            elif to == "P":
                close(v.to_value("rad"), ap.parallax.to_value("rad"), 0.0, f"{what}: Astropy's parallax", rtol=1e-9 + float(np.max((1 / (PC_AU * d)) ** 2)))
        x, k = y, to
    ctx.nt(len({c["k"], *[t for t, _ in case["chain"]]}) > 1)
    ctx.label(c["k"] + "".join(t for t, _ in case["chain"][:2]))


AR = jax.numpy.arange(1.0, 4.0)
NA = np.arange(1.0, 4.0)
# one operand: function, NumPy, power (1: same class), positive results only
UN = {
    "neg": (op.neg, np.negative, 1), "abs": (abs, np.abs, 1), "k*x": (lambda x: 3 * x, lambda x: 3 * x, 1), "x*k": (lambda x: x * 2.5, lambda x: x * 2.5, 1),
    "x/k": (lambda x: x / 4, lambda x: x / 4, 1), "x*arr": (lambda x: x * AR, lambda x: x * NA, 1), "arr*x": (lambda x: AR * x, lambda x: x * NA, 1),
    "x/arr": (lambda x: x / AR, lambda x: x / NA, 1),
    "sum": (jnp.sum, np.sum, 1), "mean": (jnp.mean, np.mean, 1), "max": (jnp.max, np.max, 1), "min": (jnp.min, np.min, 1),
    "sort": (lambda x: jnp.sort(jnp.ravel(x)), lambda x: np.sort(np.ravel(x)), 1), "cumsum": (lambda x: jnp.cumsum(jnp.ravel(x)), lambda x: np.cumsum(np.ravel(x)), 1),
    "stack": (lambda x: jnp.stack([x, 2 * x]), lambda x: np.stack([x, 2 * x]), 1), "T": (lambda x: x.T, np.transpose, 1),
    "concat": (lambda x: jnp.concatenate([jnp.ravel(x), jnp.ravel(2 * x)]), lambda x: np.concatenate([np.ravel(x), np.ravel(2 * x)]), 1),
    "index": (lambda x: jnp.ravel(x)[-1], lambda x: np.ravel(x)[-1], 1),
    "square": (jnp.square, np.square, 2), "x**2": (lambda x: x**2, lambda x: x**2, 2), "x**3": (lambda x: x**3, lambda x: x**3, 3),
    "x**1.5": (lambda x: abs(x) ** 1.5, lambda x: np.abs(x) ** 1.5, 1.5), "sqrt": (lambda x: jnp.sqrt(abs(x)), lambda x: np.sqrt(np.abs(x)), 0.5),
    "cbrt": (jnp.cbrt, np.cbrt, 1 / 3), "x*x": (lambda x: x * x, lambda x: x * x, 2), "1/x": (lambda x: 1 / x, lambda x: 1 / x, -1),
    "x**-1": (lambda x: x**-1, lambda x: 1 / x, -1), "reciprocal": (jnp.reciprocal, lambda x: 1 / x, -1), "x/2x": (lambda x: x / (2 * x), lambda x: 0.5 + 0 * x, 0),
    "dot": (lambda x: jnp.dot(jnp.ravel(x), jnp.ravel(x)), lambda x: np.dot(np.ravel(x), np.ravel(x)), 2),
    "outer": (lambda x: jnp.outer(jnp.ravel(x), jnp.ravel(x)), lambda x: np.outer(np.ravel(x), np.ravel(x)), 2),
    "matmul": (lambda x: jnp.ravel(x) @ jnp.ravel(3 * x), lambda x: np.ravel(x) @ np.ravel(3 * x), 2),
    "norm": (lambda x: jnp.linalg.norm(jnp.ravel(x)), lambda x: np.linalg.norm(np.ravel(x)), None), "hypot": (lambda x: jnp.hypot(x, 2 * x), lambda x: np.hypot(x, 2 * x), None),
    "x*time": (lambda x: x * Q(2.0, "s"), lambda x: 2 * x, "s"), "time*x": (lambda x: Q(2.0, "s") * x, lambda x: 2 * x, "s"),
    "x/time": (lambda x: x / Q(2.0, "s"), lambda x: x / 2, "1/s"), "log10": (lambda x: jnp.log10(x / q_of(jnp.ravel(x)[0])), lambda x: np.log10(x / np.ravel(x)[0]), 0),
    "x*angle": (lambda x: x * Angle(2.0, "rad"), lambda x: 2 * x, "rad"), "angle*x": (lambda x: Angle(2.0, "rad") * x, lambda x: 2 * x, "rad"),
    "to Quantity": (lambda x: convert(x, Q), lambda x: x, "q"), "to Astropy": (lambda x: Q.from_(convert(x, apu.Quantity)), lambda x: x, "q"),
}
BI = {"+": (op.add, np.add, 1), "-": (op.sub, np.subtract, 1), "*": (op.mul, np.multiply, 2), "/": (op.truediv, np.divide, 0),
      "<": (op.lt, np.less, "b"), "<=": (op.le, np.less_equal, "b"), ">": (op.gt, np.greater, "b"), ">=": (op.ge, np.greater_equal, "b"),
      "==": (op.eq, np.equal, "b"), "!=": (op.ne, np.not_equal, "b"), "maximum": (jnp.maximum, np.maximum, 1), "minimum": (jnp.minimum, np.minimum, 1),
      "where": (lambda x, y: jnp.where(x > y, x, y), np.maximum, 1), "mod": (op.mod, np.mod, 1)}


@st.composite
def s_arith(draw):
    if draw(st.booleans()):
        c = draw(dist("DDPM", elem=fl(-1, 4), small=True))
        return {"op": draw(st.sampled_from(sorted(UN))), "x": c}
    sh = draw(st.sampled_from([([], []), ([3], [3]), ([2, 3], [3]), ([3], []), ([], [2, 3])]))
    k = draw(st.sampled_from("DDPM"))
    return {"op": draw(st.sampled_from(sorted(BI))), "x": draw(dist(k, [list(sh[0])], fl(-1, 3), True)), "y": draw(dist(k, [list(sh[1])], fl(-1, 3), True)),
            "q": draw(st.sampled_from(["", "", "x", "y"]))}


def base_val(x, k, p, extra=""):
    """The value of a result in the base unit of its kind, to the power p."""
    un = x.unit if isinstance(x.unit, apu.UnitBase) else apu.Unit(str(x.unit))  # 'mag(1/2)' does not parse
    b = apu.Unit(BASE[k])
    want = apu.Unit(extra) * b if extra else b**p if p != 1 else b
    return np.asarray(x.value, dtype=float) * float((un / want).decompose().scale)


@facet("C23", "arithmetic", s_arith, quick=1100, thorough=9000, modes=("x64", "f32"), f32_frac=0.2, shards=3)
def arithmetic(case, ctx):
    """Arithmetic agrees with plain numbers, keeps the class where the result is of its dimension, else gives a Quantity."""
    o, a = case["op"], case["x"]
    k = a["k"]
    X = plain(k, pcs(a))
    x = mk(a)
    two = "y" in case
    if two:
        b = case["y"]
        f, g, p = BI[o]
        Y = plain(k, pcs(b))
        x, y = (mk(a, Q if case["q"] == "x" else None), mk(b, Q if case["q"] == "y" else None))
        if o in ("/", "mod") and np.any(np.abs(Y) < 1e-3 * scale_of(Y)):
            raise Skip("division by almost nothing")
        if p == "b" or o in ("where",):
            if np.any(np.abs(X - Y) <= ctx.tol(1e-9, 1e-5) * np.maximum(np.abs(X), np.abs(Y))):
                raise Skip("borderline")
        if o == "mod":
            n = X / Y
            if np.any(np.abs(n - np.round(n)) < ctx.tol(1e-9, 1e-2)) or np.any(np.abs(n) > 100):
                raise Skip("borderline")
        want = np.asarray(g(X, Y))
        args = (x, y)
    else:
        f, g, p = UN[o]
        if np.any(np.abs(X) < 1e-6 * scale_of(X)) and o in ("1/x", "x**-1", "reciprocal", "x/2x", "log10"):
            raise Skip("division by almost nothing")
        if o == "log10" and np.any(X / np.ravel(X)[0] <= 0):
            raise Skip("logarithm of a negative number")
        want = np.asarray(g(X), dtype=float)
        args = (x,)
    what = f"{k}[{a['u']}] {o}" + (f" {case['q'] and 'quantity '}[{case['y']['u']}]" if two else "")
    keeps = p == 1
    if keeps and k == "P" and np.any(want < -1e-12 * scale_of(X)) and not (two and case["q"] == "x"):
        try:
            r = f(*args)
        except Exception as e:  # noqa: BLE001
            check("non-negative" in str(e), f"{what}: {e}")
        else:
            raise Violation(f"{what} is a negative parallax {r!r}")
        ctx.nt()
        return
    if keeps and k == "P" and np.any(want <= ctx.tol(1e-12, 1e-4) * scale_of(X)) and o == "-":
        raise Skip("borderline")
    got = f(*args)
    if p == "b":
        v = np.asarray(got)
        check(v.dtype == bool and v.shape == want.shape and np.array_equal(v, want), f"{what}: {v.tolist()}, expected {want.tolist()}")
        ctx.nt()
        return
    if keeps and not (two and case["q"]):
        check(type(got) is CLS[k], f"{what}: {type(got)}")
    elif keeps:
        check(type(got) is CLS[k] or isinstance(got, Q), f"{what}: {type(got)}")
    else:
        check(isinstance(got, Q) or p is None and type(got) is CLS[k], f"{what}: {type(got)}")
    pp, extra = (1, "") if p in (None, "q") else (1, p) if isinstance(p, str) else (p, "")
    tl = ctx.tol(1e-12, 3e-5) * (20 if k == "M" else 1)
    v = base_val(got, k, pp, extra)
    at = tl * (scale_of(X, Y) if two else scale_of(X)) ** (abs(pp) if pp > 0 else 0) * max(1, X.size) if pp not in (0, -1) else 0.0
    if o == "mod":
        at *= 100
    close(v, want, at if pp not in (0.5, 1 / 3) else tl * scale_of(want), what, rtol=tl * (50 if k == "M" or pp in (0, -1) else 4))
    ctx.nt(scale_of(X) > 1e-20)
    ctx.label(f"{k} {o}")


@st.composite
def s_reject(draw):
    return {"k": draw(st.sampled_from("DPM")), "bad": draw(st.sampled_from(["m", "rad", "mag", "", "s", "km/s", "m2", "arcsec2", "1/pc", "rad/s"])),
            "v": draw(arr([3], fl(0.01, 5))), "neg": sorted(draw(st.sets(st.integers(0, 2)))), "shape": draw(st.sampled_from([[], [3]])), "pu": draw(st.sampled_from(PU)),
            "how": draw(st.integers(0, 3))}


@facet("C23", "reject", s_reject, quick=200, thorough=2000, modes=("x64", "f32"), f32_frac=0.2)
def reject(case, ctx):
    """Wrong dimensions and negative parallaxes are refused; noisy ones are accepted on request and kept."""
    k, bad = case["k"], case["bad"]
    cls = CLS[k]
    v = np.array(case["v"])[: size(case["shape"])].reshape(case["shape"])
    right = {"D": ["m"], "P": ["rad"], "M": ["mag"]}[k]
    makers = [lambda: cls(v, bad), lambda: convert(Q(v, bad), cls), lambda: cls.from_(v.tolist(), bad), lambda: convert(v * apu.Unit(bad), cls)]
    if bad in right:
        check(type(makers[case["how"]]()) is cls, "the right dimension is accepted")
    else:
        try:
            r = makers[case["how"]]()
        except (ValueError, TypeError) as e:
            check("imension" in str(e) or "unit" in str(e) or "onvert" in str(e), f"{cls.__name__} in {bad!r}: {e}")
        else:
            raise Violation(f"{cls.__name__} in {bad!r} is accepted: {r!r}")
    w = np.array(case["v"])
    for i in case["neg"]:
        w[i] = -w[i]
    w = w[: size(case["shape"])].reshape(case["shape"])
    un = case["pu"]
    is_neg = bool(np.any(w < 0))
    for f in (lambda: Parallax(w, un), lambda: Parallax.from_(w, un), lambda: Parallax.from_(Q(w, un)), lambda: convert(Q(w, un), Parallax),
              lambda: Parallax.from_(w * apu.Unit(un)), lambda: Parallax(w, un, check_negative=True)):
        try:
            r = f()
        except Exception as e:  # noqa: BLE001
            check(is_neg and "non-negative" in str(e), f"parallax of {w.tolist()} {un}: {type(e).__name__} {e}")
        else:
            check(not is_neg, f"negative parallax accepted: {r!r}")
            close(val_plain(r), w, 1e-6 * scale_of(w), "value")
    p = Parallax(w, un, check_negative=False)
    close(val_plain(p), w, 1e-6 * scale_of(w), "unchecked parallax is kept")
    q = p.uconvert("deg")
    check(type(q) is Parallax and q.check_negative is False, "a unit change keeps check_negative")
    close(val_plain(q), w * usc(un, "deg"), 2e-6 * scale_of(w * usc(un, "deg")), "unchecked parallax in degrees")
    r = 2 * p
    check(type(r) is Parallax and r.check_negative is False, "scaling keeps check_negative")
    ctx.nt(bad not in right or is_neg)
    ctx.label(f"{k} {bad}" + (" negative" if is_neg else ""))


def val_plain(q):
    return np.asarray(q.value, dtype=float)


@st.composite
def s_vec(draw):
    rep = draw(st.sampled_from(["lonlat", "sph", "math"]))
    return {"rep": rep, "to": draw(st.sampled_from(REPS3)), "shape": (sh := draw(st.sampled_from(SHAPES))), "xyz": draw(regular(sh, 3)),
            "k": draw(st.sampled_from("DPM")), "u": draw(st.sampled_from(["pc", "kpc", "AU", "lyr"])), "pu": draw(st.sampled_from(PU)),
            "v": draw(points([], 3))[0], "mag": draw(st.sampled_from([1.0, 1e-4, 1e3])), "how": draw(st.integers(0, 2)), "pick": draw(st.integers(0, 4))}


@facet("C23", "vector", s_vec, quick=210, thorough=4000, modes=("x64", "f32"), f32_frac=0.2, shards=3)
def vector(case, ctx):
    """A position built from any of the three kinds denotes the same point, in conversions, norms, arithmetic and for velocities."""
    rep, k, sh = case["rep"], case["k"], tuple(case["shape"])
    xyz = A(case["xyz"], sh, 3) * case["mag"]  # kpc
    c = ref.from_cart(rep, xyz)
    name = {"lonlat": "distance"}.get(rep, "r")
    d = c[name]
    dist_ = {"D": lambda: Distance(d * usc("kpc", case["u"]), case["u"]), "P": lambda: Parallax(plain("P", d * 1e3) * usc("rad", case["pu"]), case["pu"]),
             "M": lambda: DistanceModulus(plain("M", d * 1e3), "mag")}[k]()
    kw = {n: Q(c[n], "rad") for n in c if n != name}
    kw[name] = dist_
    x = POS[rep].from_(**kw) if case["how"] == 2 else POS[rep](**kw) if case["how"] else POS[rep].from_(kw)
    check(type(getattr(x, name)) is CLS[k], f"{rep} stores {type(getattr(x, name))}")
    tl = ctx.tol(1e-12, 3e-4)
    sc = scale_of(xyz)
    what = f"{rep} with {CLS[k].__name__}"
    close(val(x.norm(), "kpc"), d, tl * sc, f"{what}: norm")
    pick = case["pick"]
    if pick <= 1:
        y = x.represent_as(POS[case["to"]])
        close(xyz_of(y, "kpc"), xyz, tl * sc, f"{what} to {case['to']}")
    if pick == 1:
        close(val(convert(x, Q), "kpc"), xyz, tl * sc, f"{what} to Quantity")
    if pick == 2 and not ctx.f32:
        sh_ = np.array(case["v"]) * case["mag"]
        o = cx.CartesianPos3D.from_(Q(sh_, "kpc"))
        z = xyz + sh_
        if np.all(np.hypot(z[..., 0], z[..., 1]) > 0.1 * case["mag"]):
            r = x + o
            close(np.broadcast_to(xyz_of(r, "kpc"), z.shape), z, 1e-10 * scale_of(z, xyz), f"{what}: sum")
    if pick == 3:
        close(xyz_of(2 * x, "kpc"), 2 * xyz, tl * sc, f"{what}: twice")
        close(xyz_of(-x, "kpc"), -xyz, tl * sc, f"{what}: negative")
    if pick == 4:
        vel = cx.CartesianVel3D.from_(Q(np.broadcast_to(np.array(case["v"]), xyz.shape), "kpc/Myr"))
        w = vel.represent_as(VEL[case["rep"]], x)
        vc = ref.vel_to_cart(rep, c, rate_of(w, rep))
        close(vc, np.broadcast_to(np.array(case["v"]), xyz.shape), 1e3 * tl * max(1.0, scale_of(case["v"])), f"{what}: velocity")
    ctx.nt(k != "D")
    ctx.label(f"{rep} {k}")
