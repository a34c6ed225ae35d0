"""C19: every operator's inverse undoes it."""

import galilei as G
from galilei import O
from gens import *
from core import facet

RULE = ("A case is an operator or a pipeline of operators (nested to depth 2) and an argument as in C18. Non-trivial: "
        "the operator changes the argument.")
ASSUMPTIONS = ["the NumPy model of the argument is what must come back",
               "positions stay off the axis of their own system on the way"]


def tame(a, op):
    if not G.tame(a, op):
        return False
    s = G.model(a)
    tr = []
    G.run(G.inverse(op), s, tr)
    return a["dim"] == 1 or all(np.all(np.hypot(x[..., 0], x[..., 1]) > 0.25) for x in tr)


def scales(a, op):
    s = G.model(a)
    tr = []
    G.run(G.inverse(op), s, tr)
    return max([G.out_scale(a, op)] + [scale_of(x) for x in tr])


def tup(r):
    return r if isinstance(r, tuple) else (r,)


@st.composite
def s_undo(draw):
    return {**draw(G.case()), "pick": draw(st.integers(0, 4))}


@facet("C19", "undo", s_undo, quick=240, thorough=6500, modes=("x64", "f32"), f32_frac=0.12, shards=7)
def undo(case, ctx):
    """inverse(op(x)) = x, op(inverse(x)) = x, inverse of the inverse is the operator."""
    a, op = case["arg"], case["op"]
    if not tame(a, op):
        raise Skip("on the axis")
    o = G.build(op)
    i = o.inverse
    x = G.make(a)
    s = G.model(a)
    tl, sc = 3 * G.tol(a, op, ctx), scales(a, op)
    want = G.run(G.steps(op), s)
    back = G.run(G.inverse(op), s)
    for k in s:
        close(G.run(G.inverse(op), want)[k], s[k], 1e-9 * sc, "reference")
    G.compare(i(*tup(o(*x))), a, s, tl, sc, f"{op['k']} then inverse")
    pick = case["pick"]
    if pick == 0:
        G.compare(i(*x), a, back, tl, sc, f"inverse of {op['k']}")
    elif pick == 1:
        G.compare(i.inverse(*x), a, want, tl, sc, f"inverse of the inverse of {op['k']}")
    elif pick == 2:
        G.compare((o | i)(*x), a, s, tl, sc, "piped with its inverse")
    else:
        G.compare(o(*tup(i(*x))), a, s, tl, sc, f"inverse then {op['k']}")
    if op["k"] in ("str", "boost", "vb"):
        G.compare((-o)(*x), a, back, tl, sc, f"negative of {op['k']}")
    ctx.nt(any(not np.allclose(want[k], s[k]) for k in s))
    ctx.label(f"{op['k']} on {a['kind']}")
