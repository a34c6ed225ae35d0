"""C20: composing and simplifying operators preserves their action."""

import galilei as G
from galilei import O
from gens import *
from core import facet
from props.c19 import tup

RULE = ("A case is 1-4 operators (leaves or nested pipelines; null, repeated, mutually inverse and adjacent operators "
        "of one type are frequent) and an argument as in C18. Non-trivial: the composition changes the argument and "
        "has two or more steps, or an operator that simplifies.")
ASSUMPTIONS = ["NumPy Galilean transformations are the oracle",
               "simplify() treats an operator whose values are below 1e-8 in its own units as the identity (generated "
               "parameters are zero or above 1e-4)"]


@st.composite
def null(draw, lf):
    """The same kind of operator with no effect, or with an inner part of no effect."""
    lf = dict(lf)
    parts = [k for k in ("d", "v", "ang", "t0") if k in lf]
    drop = parts if draw(st.booleans()) else [draw(st.sampled_from(parts))] if parts else []
    for k in drop:
        lf[k] = 0.0 if k == "t0" else [0.0] * len(lf[k])
    return lf


@st.composite
def ops_for(draw, leaves, dim, lo=1, hi=4):
    out = []
    for _ in range(draw(st.integers(lo, hi))):
        how = draw(st.integers(0, 7))
        if how == 0 and out and out[-1]["k"] != "pipe":
            out.append(draw(G.leaf([out[-1]["k"]], dim)))  # a neighbour of the same type
        elif how <= 2:
            out.append(draw(null(draw(G.leaf(leaves, dim)))))
        else:
            out.append(draw(G.tree(leaves, dim, 1)))
    return out


@st.composite
def s_comp(draw, lo=1, hi=4):
    a = draw(G.argument())
    leaves = G.LEAVES[a["kind"]]
    if a["kind"] == "posvel" and a["vrep"] not in CARTOF.values():
        leaves = ["str", "id"]
    return {"arg": a, "ops": draw(ops_for(leaves, a["dim"], lo, hi)), "cut": draw(st.integers(0, 3)),
            "at": draw(st.integers(0, 4)), "pick": draw(st.integers(0, 11))}


def prep(case, ctx):
    a = case["arg"]
    op = {"k": "pipe", "ops": case["ops"], "how": "tuple"}
    if not G.tame(a, op):
        raise Skip("on the axis")
    s = G.model(a)
    want = G.run(G.steps(op), s)
    return a, op, s, want, G.tol(a, op, ctx), G.out_scale(a, op), G.make(a)


@facet("C20", "compose", lambda: s_comp(2, 4), quick=130, thorough=3000, shards=5)
def compose(case, ctx):
    """`|` in any grouping, Pipe of the parts, one application after the other, with identities put in."""
    a, op, s, want, tl, sc, x = prep(case, ctx)
    ops = [G.build(o) for o in case["ops"]]
    n = len(ops)
    cut = 1 + case["cut"] % (n - 1)

    def chain(xs):
        r = xs[0]
        for o in xs[1:]:
            r = r | o
        return r

    def one_by_one():
        y = x
        for o in ops:
            y = tup(o(*y))
        return y if len(y) > 1 else y[0]

    def right():
        r = ops[-1]
        for o in ops[-2::-1]:
            r = o | r
        return r

    p = O.Pipe(tuple(ops))
    at = case["at"] % (n + 1)
    forms = {"left": lambda: chain(ops), "right": right, "grouped": lambda: chain(ops[:cut]) | chain(ops[cut:]),
             "Pipe": lambda: p, "Pipe of list": lambda: O.Pipe(list(ops)), "Pipe.from_": lambda: O.Pipe.from_(tuple(ops)),
             "sliced": lambda: p[:cut] | p[cut:], "items": lambda: O.Pipe(tuple(p[i] for i in range(n))),
             "iterated": lambda: O.Pipe(tuple(iter(p))),
             "identity": lambda: O.Pipe((*ops[:at], O.Identity(), *ops[at:])),
             "identity |": lambda: O.Identity() | p, "| identity": lambda: p | O.Identity()}
    G.compare(one_by_one(), a, want, tl, sc, f"one by one of {[o['k'] for o in case['ops']]}")
    names = sorted(forms)
    for k in {names[(case["pick"] + j) % len(names)] for j in (0, 5)}:
        G.compare(forms[k]()(*x), a, want, tl, sc, f"{k} of {[o['k'] for o in case['ops']]}")
    check(len(p.operators) == n and p.operators == tuple(ops), "operators of the pipe")
    ctx.nt(any(not np.allclose(want[k], s[k]) for k in s))
    ctx.label(a["kind"])


@facet("C20", "simplify", lambda: s_comp(1, 4), quick=230, thorough=7000, modes=("x64", "f32"), f32_frac=0.1, shards=6)
def simplify(case, ctx):
    """The simplified operator acts the same, in method and function form, of one or two operators."""
    a, op, s, want, tl, sc, x = prep(case, ctx)
    ops = [G.build(o) for o in case["ops"]]
    names = [o["k"] for o in case["ops"]]
    p = ops[0] if len(ops) == 1 else O.Pipe(tuple(ops))
    tl = max(tl, ctx.tol(1e-8, 1e-4))
    r = p.simplify()
    G.compare(r(*x), a, want, tl, sc, f"simplified {names}")
    pick = case["pick"] % 3
    if pick == 0:
        G.compare(O.simplify_op(p)(*x), a, want, tl, sc, f"simplify_op {names}")
    elif pick == 1:
        G.compare(r.simplify()(*x), a, want, tl, sc, f"simplified twice {names}")
    if len(ops) == 2:
        G.compare(O.simplify_op(*ops)(*x), a, want, tl, sc, f"simplify_op(a, b) {names}")
        if names == ["rot", "rot"]:
            G.compare((ops[1] @ ops[0])(*x), a, want, tl, sc, "rotation product")
    if pick == 2:
        y = x
        for o in ops:
            y = tup(o.simplify()(*y))
        G.compare(y if len(y) > 1 else y[0], a, want, tl, sc, f"simplified parts {names}")
    inv = p.inverse
    if len(G.steps(op)) and case["at"] == 0:
        z = (p | inv).simplify() if len(ops) > 1 or names[0] == "pipe" else O.simplify_op(p, inv)
        if G.tame(a, {"k": "pipe", "ops": case["ops"], "how": "tuple"}):
            G.compare(z(*x), a, s, 4 * tl, sc, f"simplified {names} and inverse")
    if all(np.allclose(par, np.eye(3) if k == "rot" else 0) for k, par in G.steps(op)) and len(ops) == 1 and names[0] != "pipe":
        check(isinstance(r, O.Identity), f"a null {names} simplifies to {type(r)}")
    ctx.nt(any(not np.allclose(want[k], s[k]) for k in s) and len(G.steps(op)) > 1)
    ctx.label("+".join(sorted(set(names))))
