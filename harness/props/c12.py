"""C12: batched, vmapped and jitted results equal the one-by-one results."""

import equinox as eqx
import jax
import unxt

from gens import *
from core import facet
from phys import phys, flat, same
from props.c05 import regular
import progs

RULE = ("A case is one operation of the library (harness/progs.py) on generated vectors of batch shape (3,), (2,3) "
        "or (), run in two ways: whole batch vs each element alone, jit (operator closed over or passed as an "
        "argument) vs eager, vmap vs batch, forward/reverse derivative vs central finite differences and the "
        "analytic Jacobian. Non-trivial: the batch has several elements, or the mode is not eager, and the "
        "result is not zero.")
ASSUMPTIONS = ["regular points (off the singular sets) for derivatives",
               "velocity and position of one case have the same batch shape"]

KPC = {"lu": "kpc", "tu": "Myr", "au": "rad"}
SEQ = ["xyz", "xyz2", "v", "acc", "t"]


def tol_of(case, ctx):
    return ctx.tol(1e-7 if case["op"] == "prolate" else 1e-10, 5e-3)


def floor_of(case):
    return max(1.0, scale_of(case["xyz"], case["xyz2"], case["v"], case["acc"]))


@facet("C12", "elementwise", lambda: progs.program(shapes=[[3], [2, 3], [1], [2, 1]]), quick=110, thorough=2000,
       modes=("x64",), shards=6)
def elementwise(case, ctx):
    """The batch result holds the results of the elements."""
    f = progs.fn(case, un=KPC)
    out = list(flat(phys(f(*progs.inputs(case, KPC)), cart=True)))
    n = size(case["shape"])
    fl_ = floor_of(case)
    for i in sorted({0, n - 1, n // 2}):
        one = dict(case, shape=[], **{k: case[k][i:i + 1] for k in SEQ})
        res = list(flat(phys(f(*progs.inputs(one, KPC)), cart=True)))
        check([p for p, *_ in res] == [p for p, *_ in out], f"different results: {res} {out}")
        idx = np.unravel_index(i, case["shape"])
        for (path, a, ua), (_, b, ub) in zip(out, res):
            check(ua == ub, f"{path}: units {ua} {ub}")
            if a.shape == b.shape and b.ndim == 0:
                got = a
            else:
                check(a.shape == tuple(case["shape"]) + b.shape, f"{path}: batch shape {a.shape} of {case['shape']}")
                got = a[idx]
            d = ref.angdiff(got, b) if "rad" in ua and path[-1] in ("phi", "lon", "theta") else got - b
            check(np.all(np.abs(d) <= tol_of(case, ctx) * max(fl_, scale_of(np.abs(b)))),
                  f"{case['op']} {'.'.join(path)} element {i}: batch gives {got}, alone {b}")
    ctx.nt(n > 1)
    ctx.label(case["op"])


@facet("C12", "jit", lambda: st.builds(lambda c, k: dict(c, how=k), progs.program(), st.sampled_from(
    ["jit", "filter_jit", "oparg", "jitjit"])), quick=120, thorough=1500, modes=("x64", "f32"), shards=6, f32_frac=0.2)
def jit(case, ctx):
    """jit compiles to the same result as eager evaluation."""
    args = progs.inputs(case, KPC)
    f = progs.fn(case, un=KPC)
    want = f(*args)
    if case["how"] == "oparg" and "par" in case:
        op = progs.operator(case, KPC)
        got = eqx.filter_jit(lambda o, *a: progs.fn(case, o, KPC)(*a))(op, *args)
    elif case["how"] == "jit":
        got = jax.jit(f)(*args)
    elif case["how"] == "jitjit":
        jf = eqx.filter_jit(f)
        jf(*jax.tree.map(lambda x: 0.9 * x, args))  # the compiled function is reused with new values
        got = jf(*args)
    else:
        got = eqx.filter_jit(f)(*args)
    same(got, want, tol_of(case, ctx), f"{case['how']} of {case['op']}", floor=floor_of(case))
    ctx.nt()
    ctx.label(case["op"])


@facet("C12", "vmap", lambda: progs.program(shapes=[[3], [2, 3], [1]]), quick=110, thorough=1500,
       modes=("x64",), shards=6)
def vmap(case, ctx):
    """vmap over the leading axis gives the batch result."""
    args = progs.inputs(case, KPC)
    f = progs.fn(case, un=KPC)
    want = f(*args)
    axes = jax.tree.map(lambda x: 0 if getattr(x, "ndim", 0) else None, args)
    struct = jax.eval_shape(f, *args)
    out_axes = jax.tree.map(lambda x: 0 if x.ndim else None, struct)
    got = jax.vmap(f, in_axes=axes, out_axes=out_axes)(*args)
    same(got, want, tol_of(case, ctx), f"vmap of {case['op']}", floor=floor_of(case))
    ctx.nt()
    ctx.label(case["op"])


@st.composite
def grad_case(draw):
    dim = draw(st.sampled_from([3, 3, 3, 2]))
    reps = REPS3P if dim == 3 else REPS2
    a, b = draw(st.sampled_from(reps)), draw(st.sampled_from(reps))
    pro = "prolate" in (a, b)
    case = {"dim": dim, "a": a, "b": b, "xyz": draw(regular([], dim, strict=True)), "v": draw(points([], dim)),
            "what": draw(st.sampled_from(["pos", "pos", "norm", "vel", "rot"])),
            "mode": draw(st.sampled_from(["fwd", "rev"]))}
    if pro:
        case["Delta"] = draw(fl(0.3, 1.5))
        if case["what"] in ("vel", "norm"):
            case["what"] = "pos"
    return case


@facet("C12", "derivative", grad_case, quick=110, thorough=1500, modes=("x64",), shards=4)
def derivative(case, ctx):
    """Automatic derivatives agree with the analytic Jacobian and finite differences."""
    a, b, dim, D = case["a"], case["b"], case["dim"], case.get("Delta")
    p = np.array(case["xyz"][0])
    ca = ref.from_cart(a, p, D)
    names = list(ref.COMPS[a])
    x0 = np.array([ca[k] for k in names])
    un = [kind_unit(kd, "kpc") for kd in ref.COMPS[a].values()]
    vun = [rate_unit(kd, "kpc", "Myr") for kd in ref.COMPS[a].values()]
    kw = {"Delta": Q(D, "kpc")} if D else {}

    def pos(x):
        extra = kw if a == "prolate" else {}
        return POS[a](**{k: Q(x[i], un[i]) for i, k in enumerate(names)}, **extra)

    def comps(o, rep):
        return jax.numpy.stack([unxt.ustrip(kind_unit(kd, "kpc"), getattr(o, k)) for k, kd in ref.COMPS[rep].items()])

    what = case["what"]
    if what == "rot" and (dim != 3 or a == "prolate"):
        what = "pos"
    if what == "pos":
        f = lambda x: comps(pos(x).represent_as(POS[b], **(kw if b == "prolate" else {})), b)
        want = np.linalg.solve(ref.jac_to_cart(b, ref.from_cart(b, p, D), D), ref.jac_to_cart(a, ca, D))
    elif what == "norm":
        f = lambda x: unxt.ustrip("kpc", pos(x).norm())[None]
        want = (p / np.linalg.norm(p))[None] @ ref.jac_to_cart(a, ca, D)
    elif what == "rot":
        op = cx.ops.GalileanRotation.from_euler("z", Q(30.0, "deg"))
        R = ref.rot_matrix("z", np.deg2rad(30))
        f = lambda x: comps(op(pos(x).represent_as(cx.CartesianPos3D)), "cart3")
        want = R @ ref.jac_to_cart(a, ca, D)
    else:
        vc = np.array(case["v"][0])
        rate = ref.vel_from_cart(a, ca, vc, D)
        f = lambda w: jax.numpy.stack([unxt.ustrip(rate_unit(kd, "kpc", "Myr"), getattr(
            VEL[a](**{"d_" + k: Q(w[i], vun[i]) for i, k in enumerate(names)}).represent_as(VEL[b], pos(x0)), "d_" + k2))
            for k2, kd in ref.COMPS[b].items()])
        want = np.linalg.solve(ref.jac_to_cart(b, ref.from_cart(b, p, D), D), ref.jac_to_cart(a, ca, D))
    at = jax.numpy.asarray(x0 if what != "vel" else rate)
    jac = np.asarray((jax.jacfwd if case["mode"] == "fwd" else jax.jacrev)(f)(at))
    if D:
        tol = 2e-6
    else:
        tol = 1e-9
    close(jac, want, tol * max(1.0, scale_of(want)), f"derivative of {what} {a}->{b}")
    h = 1e-5
    if what != "vel" and min(abs(p)) > 0.01 and scale_of(want) < 100:
        k = int(abs(case["v"][0][0] * 100)) % dim
        e = np.zeros(dim)
        e[k] = h
        fp, fm = np.asarray(f(at + e)), np.asarray(f(at - e))
        fd = (fp - fm) / (2 * h)
        ok = np.abs(fp - fm) < 1  # not across the azimuth's cut
        check(np.all((np.abs(fd - jac[:, k]) <= 1e-5 * max(1.0, scale_of(want)) ** 3) | ~ok),
              f"finite difference {fd} != {jac[:, k]} ({what} {a}->{b})")
    ctx.nt()
    ctx.label(f"{what} {case['mode']}")
