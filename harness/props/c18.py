"""C18: operators act as the Galilean transformations they denote."""

import galilei as G
from galilei import O
from gens import *
from core import facet

RULE = ("A case is an operator (translation, spatial translation, rotation given in four ways, boost, velocity boost, "
        "full Galilean operator, identity, or a pipeline nested to depth 2) with own units, and an argument (plain "
        "quantity of 1-4 components, position in any system of 1-3 dimensions, with or without a time, velocity, "
        "position with velocity, four-vector with own speed of light), scalar or batched. "
        "Non-trivial: the operator has at least one step that changes the argument.")
ASSUMPTIONS = ["NumPy Galilean transformation of (t, x, v) is the oracle",
               "positions stay off the axis of their own system on the way"]


def moved(want, s):
    return any(not np.allclose(want[k], s[k]) for k in s)


@facet("C18", "apply", lambda: G.case(), quick=420, thorough=9000, modes=("x64", "f32"), f32_frac=0.15, shards=6)
def apply(case, ctx):
    """Any operator on any argument."""
    a, op = case["arg"], case["op"]
    if not G.tame(a, op):
        raise Skip("on the axis")
    o = G.build(op)
    x = G.make(a)
    s = G.model(a)
    want = G.run(G.steps(op), s)
    G.compare(o(*x), a, want, G.tol(a, op, ctx), G.out_scale(a, op), op["k"])
    ctx.nt(moved(want, s))
    ctx.label(f"{op['k']} on {a['kind']}")


@st.composite
def s_forms(draw):
    c = draw(G.case(kinds=["pos_t", "fv", "q_t"], depth=0))
    return {**c, "pick": draw(st.integers(0, 9))}


@facet("C18", "forms", s_forms, quick=90, thorough=2000, shards=2)
def forms(case, ctx):
    """The ways to build an operator give the same operator; quantities, vectors and events agree."""
    a, op = case["arg"], case["op"]
    if not G.tame(a, op):
        raise Skip("on the axis")
    o = G.build(op)
    s = G.model(a)
    want = G.run(G.steps(op), s)
    tl, sc = G.tol(a, op, ctx), G.out_scale(a, op)
    x = G.make(a)
    f = {k: getattr(o, k) for k in o.__dataclass_fields__ if k != "check_tol"}
    others = {"from_ mapping": type(o).from_(f), "from_ itself": type(o).from_(o), "keywords": type(o)(**f)}
    if op["k"] in ("str", "tr", "boost", "vb", "rot"):
        others["from_ value"] = type(o).from_(next(iter(f.values())))
    if op["k"] == "str":
        others["wrapped"] = O.GalileanSpatialTranslation(o)
    if op["k"] == "rot":
        others["wrapped"] = O.GalileanRotation(o)
    if op["k"] in ("boost", "vb") and op["dim"] == 3:
        un = f"{op['lu']} / {op['tu']}"
        others["list"] = type(o).from_((np.array(op["v"]) * usc("kpc/Myr", un)).tolist(), un)
    if op["k"] == "str" and op["dform"] == "q":
        others["list"] = type(o).from_((np.array(op["d"])[: op["dim"]] * usc("kpc", op["lu"])).tolist(), op["lu"])
    if op["k"] == "gal":
        others["parts"] = o.rotation | o.translation | o.velocity
        others["operators"] = O.Pipe(o.operators)
        others["slice"] = o[0:3]
        others["items"] = O.Pipe(tuple(o[i] for i in range(3)))
        others["iter"] = O.Pipe(tuple(o))
        others["loose"] = O.GalileanOperator(rotation=o.rotation.rotation, translation=o.translation.translation,
                                             velocity=o.velocity.velocity)
    names = sorted(others)
    for k in {names[(case["pick"] + j) % len(names)] for j in (0, 3, 5)}:
        other = others[k]
        G.compare(other(*x), a, want, tl, sc, f"{op['k']} {k}")
    check(bool(o.is_inertial), "Galilean operators are inertial")
    ctx.nt(moved(want, s))
    ctx.label(op["k"])
