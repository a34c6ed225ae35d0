"""C07: position arithmetic obeys the vector-space laws in every representation."""

import quaxed.lax as qlax
import quaxed.numpy as jnp

from gens import *
from core import facet
from props.c01 import native

RULE = ("A case is one or two batches of positions (any systems of one dimension, special points "
        "included, own units), a scalar of either sign and kind, and an operation, or a history of "
        "2-6 operations on a pool of positions. Non-trivial: the operands are not zero and the "
        "operation is not the identity.")
ASSUMPTIONS = ["NumPy Cartesian arithmetic on harness/ref.py geometry is the oracle"]

REPS = {3: REPS3, 2: REPS2, 1: REPS1}


def scalars():
    return st.one_of(fl(-4, 4), st.sampled_from([1.0, -1.0, 2.0, -2.0, 0.5, 3.0, 0.0]))


@st.composite
def operand(draw, dim, shape, reps=None):
    rep = draw(st.sampled_from(reps or REPS[dim]))
    xyz = draw(points(shape, dim))
    if rep == "radial":
        xyz = [[abs(c) for c in p] for p in xyz]
    return {"rep": rep, "xyz": xyz, "shape": shape, "lu": draw(st.sampled_from(lunits())),
            "au": draw(st.sampled_from(["rad", "deg"]))}


def xyz0(o, lu="kpc"):
    """The operand's Cartesian numbers are in kpc whatever its own unit."""
    return A(o["xyz"], o["shape"], len(o["xyz"][0]))


def make(o):
    return pos_from_xyz(o["rep"], xyz0(o) * usc("kpc", o["lu"]), o["lu"], o["au"])


def mkscalar(s, kind):
    import jax.numpy as rjnp
    return {"py": float, "int": lambda x: int(round(x)), "jnp": rjnp.asarray}[kind](s)


def rtol(ctx, *reps):
    """acos loses half the digits near the poles."""
    if set(reps) & {"sph", "math", "lonlat"}:
        return ctx.tol(2e-7, 3e-3)
    return ctx.tol(1e-9, 3e-5)


def same_point(out, rep, want, tol, what, lu="kpc"):
    check(type(out) is POS[rep], f"{what}: {type(out).__name__} is not {POS[rep].__name__}")
    close(xyz_of(out, lu, rep), want, tol * max(1.0, scale_of(want)), what)


def guard_radial(rep, want):
    """The half-line has no negatives: a negative result must raise."""
    return rep == "radial" and np.any(want < 0)


def attempt(f, rep, want, tol, what, ctx):
    if guard_radial(rep, want):
        try:
            out = f()
        except Exception:
            ctx.label("radial negative raised")
            return None
        raise Violation(f"{what}: a negative radial position {want.tolist()} was returned as {out}")
    out = f()
    same_point(out, rep, want, tol, what)
    return out


BIN = {
    "add": (lambda a, b: a + b, np.add), "sub": (lambda a, b: a - b, np.subtract),
    "jadd": (jnp.add, np.add), "jsub": (jnp.subtract, np.subtract),
    "ladd": (qlax.add, np.add), "lsub": (qlax.sub, np.subtract),
}


@st.composite
def bin_case(draw):
    dim = draw(st.sampled_from([3, 3, 3, 2, 1]))
    shape = draw(st.sampled_from(SHAPES))
    a = draw(operand(dim, shape))
    op = draw(st.sampled_from(["add", "sub", "add", "sub", "jadd", "jsub", "ladd", "lsub"]))
    b = draw(operand(dim, shape if op[0] == "l" else draw(st.sampled_from([shape, shape, []]))))
    return {"a": a, "b": b, "op": op}


@facet("C07", "binary", bin_case, quick=260, thorough=4000, modes=("x64", "f32"), shards=6, f32_frac=0.2)
def binary(case, ctx):
    """Sum and difference of positions of any systems and units, in the left operand's system."""
    a, b = case["a"], case["b"]
    pa, pb = make(a), make(b)
    before = xyz_of(pa, "kpc", a["rep"]), xyz_of(pb, "kpc", b["rep"])
    fn, model = BIN[case["op"]]
    want = model(xyz0(a), xyz0(b))
    tol = rtol(ctx, a["rep"], b["rep"]) * max(1.0, scale_of(xyz0(a)), scale_of(xyz0(b)))
    attempt(lambda: fn(pa, pb), a["rep"], want, tol, f"{a['rep']} {case['op']} {b['rep']}", ctx)
    for p, o, w in zip((pa, pb), (a, b), before):
        close(xyz_of(p, "kpc", o["rep"]), w, 0.0, "an operand was changed")
    ctx.nt(scale_of(xyz0(a)) > 0 and scale_of(xyz0(b)) > 0)
    ctx.label(f"{a['rep']}-{b['rep']}")


UN = {
    "neg": lambda p, s: (-p, -1.0), "pos": lambda p, s: (+p, 1.0),
    "jneg": lambda p, s: (jnp.negative(p), -1.0),
    "lmul": lambda p, s: (s * p, None), "rmul": lambda p, s: (p * s, None),
    "div": lambda p, s: (p / s, "inv"), "jmul": lambda p, s: (jnp.multiply(s, p), None),
    "jdiv": lambda p, s: (jnp.divide(p, s), "inv"),
}


@st.composite
def un_case(draw):
    dim = draw(st.sampled_from([3, 3, 3, 2, 2, 1]))
    op = draw(st.sampled_from(list(UN)))
    kind = draw(st.sampled_from(["py", "py", "int", "jnp"]))
    s = draw(scalars())
    if kind == "int":
        s = float(round(s))
    if "div" in op and abs(s) < 0.1:
        s = -2.0
    return {"a": draw(operand(dim, draw(st.sampled_from(SHAPES)))), "op": op, "kind": kind, "s": s}


@facet("C07", "scalar", un_case, quick=260, thorough=4000, modes=("x64", "f32"), shards=6, f32_frac=0.2)
def scalar(case, ctx):
    """Negation and products or quotients with scalars of either sign."""
    a, s, op = case["a"], case["s"], case["op"]
    p = make(a)
    fac = {"neg": -1.0, "jneg": -1.0, "pos": 1.0, "div": 1 / s if s else 0, "jdiv": 1 / s if s else 0}.get(op, s)
    want = fac * xyz0(a)
    attempt(lambda: UN[op](p, mkscalar(s, case["kind"]))[0], a["rep"], want,
            rtol(ctx, a["rep"]) * max(1.0, abs(fac)), f"{op}({s}) of {a['rep']}", ctx)
    ctx.nt(scale_of(xyz0(a)) > 0 and fac != 1)
    ctx.label(f"{op} {a['rep']}")


@facet("C07", "product", bin_case, quick=60, thorough=800, modes=("x64",), shards=2)
def product(case, ctx):
    """The product of two positions is the product of their Cartesian components."""
    a, b = case["a"], case["b"]
    if a["shape"] != b["shape"]:
        b = dict(b, xyz=(b["xyz"] * size(a["shape"]))[: size(a["shape"])], shape=a["shape"])
    out = make(a) * make(b)
    want = xyz0(a) * xyz0(b)
    close(val(out, "kpc2"), want, 1e-9 * max(1.0, scale_of(want)), f"{a['rep']}*{b['rep']}")
    ctx.nt(scale_of(want) > 0)


@st.composite
def hist_case(draw):
    dim = draw(st.sampled_from([3, 3, 2]))
    shape = draw(st.sampled_from([[], [3]]))
    pool = [draw(operand(dim, shape)) for _ in range(2)]
    ops = []
    for _ in range(draw(st.integers(2, 6))):
        k = draw(st.sampled_from(["add", "sub", "mul", "div", "neg", "rep", "unit"]))
        i, j = draw(st.integers(0, 1)), draw(st.integers(0, 1))
        if k in ("add", "sub", "neg"):
            ops.append([k, i, j])
        elif k == "mul":
            ops.append([k, i, draw(fl(-2, 2))])
        elif k == "div":
            ops.append([k, i, draw(st.one_of(fl(0.4, 3), fl(-3, -0.4)))])
        elif k == "rep":
            ops.append([k, i, draw(st.sampled_from(REPS[dim]))])
        else:
            ops.append([k, i, draw(st.sampled_from(lunits()))])
    return {"pool": pool, "ops": ops}


@facet("C07", "history", hist_case, quick=70, thorough=1500, modes=("x64",), shards=6)
def history(case, ctx):
    """A history of operations tracks the same history on plain Cartesian arrays."""
    ps = [make(o) for o in case["pool"]]
    xs = [xyz0(o) for o in case["pool"]]
    reps = [o["rep"] for o in case["pool"]]
    big = max(1.0, scale_of(*xs))
    for n, (k, i, arg) in enumerate(case["ops"]):
        what = f"step {n} {k}({i},{arg}) with {reps}"
        if k in ("add", "sub"):
            f = BIN[k]
            out, x = f[0](ps[i], ps[arg]), f[1](xs[i], xs[arg])
        elif k == "mul":
            out, x = arg * ps[i], arg * xs[i]
        elif k == "div":
            out, x = ps[i] / arg, xs[i] / arg
        elif k == "neg":
            out, x = -ps[i], -xs[i]
        elif k == "rep":
            out, x = ps[i].represent_as(POS[arg]), xs[i]
            reps[i] = arg
        else:
            out, x = ps[i].uconvert({"length": arg, "angle": "rad"}), xs[i]
        big = max(big, scale_of(x))
        same_point(out, reps[i], x, 2e-7 * (n + 2) * big, what)
        ps[i], xs[i] = out, x
    ctx.nt(any(scale_of(x) > 0 for x in xs) and len(case["ops"]) > 2)
    ctx.label(f"len {len(case['ops'])}")


@st.composite
def laws_case(draw):
    dim = draw(st.sampled_from([3, 3, 2]))
    return {"a": draw(operand(dim, [])), "b": draw(operand(dim, [])), "c": draw(operand(dim, [])),
            "s": draw(scalars()), "t": draw(scalars())}


@facet("C07", "laws", laws_case, quick=50, thorough=800, modes=("x64",), shards=4)
def laws(case, ctx):
    """Associativity, commutativity, distributivity and inverses, computed with the code alone."""
    a, b, c = (make(case[k]) for k in "abc")
    s, t = case["s"], case["t"]
    pt = lambda v: xyz_of(v, "kpc")
    big = max(1.0, *(scale_of(xyz0(case[k])) for k in "abc")) * max(1.0, abs(s), abs(t), abs(s * t))
    tol = 1e-6 * big
    close(pt((a + b) + c), pt(a + (b + c)), tol, "(a+b)+c != a+(b+c)")
    close(pt(a + b), pt(b + a), tol, "a+b != b+a")
    close(pt(s * (a + b)), pt(s * a + s * b), tol, "s(a+b) != sa+sb")
    close(pt(s * (t * a)), pt((s * t) * a), tol, "s(ta) != (st)a")
    close(pt(a - a), np.zeros_like(pt(a)), tol, "a-a != 0")
    close(pt(a - b), pt(a + (-b)), tol, "a-b != a+(-b)")
    ctx.nt(a is not b and scale_of(pt(a)) > 0)
