"""C17: a Space transforms its position, velocity and acceleration consistently."""

import copy
import pickle

import jax
import jax.tree_util as jtu
from dataclassish import field_items, field_values, replace

from gens import *
from core import facet
from phys import same
from props.c05 import regular
from props.c08 import expect  # noqa: F401

RULE = ("A case is a collection (position; position and velocity; or position, velocity and acceleration of 1-3 "
        "dimensions, each in own system and units, of equal or broadcastable batch shapes) and an operation or a "
        "history of 1-5 operations. Non-trivial: the velocity is not zero and the operation is not the identity.")
ASSUMPTIONS = ["harness/ref.py geometry (Jacobians at the collection's own position) is the oracle",
               "equality and norm of a Space raise"]
V = cx.vecs
REPS = {3: REPS3, 2: REPS2, 1: REPS1}
KEYS = ["length", "speed", "acceleration"]
ALIAS = {"length": ["length"], "speed": ["speed", "velocity"], "acceleration": ["acceleration"]}


@st.composite
def space(draw, shapes=SHAPES, mixed=False, pool=None):
    dim = draw(st.sampled_from([3, 3, 3, 2, 1]))
    shape = draw(st.sampled_from(shapes))
    n = draw(st.sampled_from([1, 2, 2, 3, 3]))

    def sub():
        if not mixed or not draw(st.booleans()):
            return shape
        s = [1 if draw(st.integers(0, 2)) == 0 else d for d in shape]
        return s[draw(st.integers(0, len(s))):]

    out = {"dim": dim, "shape": shape, "n": n, "reps": [draw(st.sampled_from(pool or REPS[dim])) if dim == 3 or not pool
                                                     else draw(st.sampled_from(REPS[dim])) for _ in range(3)],
           "lu": draw(st.sampled_from(["kpc", "pc"])), "tu": draw(st.sampled_from(["Myr", "yr"])),
           "au": draw(st.sampled_from(["rad", "deg"])), "perm": draw(st.permutations(range(n))),
           "how": draw(st.sampled_from(["kw", "dict", "pairs", "dim", "alias"]))}
    sh = [sub() for _ in range(3)]
    out["shapes"] = sh
    out["xyz"] = draw(regular(sh[0], dim))
    out["v"] = draw(points(sh[1], dim))
    out["a"] = draw(points(sh[2], dim))
    return out


def full(case):
    sh = [tuple(s) for s in case["shapes"][: case["n"]]]
    return np.broadcast_shapes(*sh)


def model(case):
    """Cartesian arrays of the full shape."""
    d, sh = case["dim"], full(case)
    out = [np.broadcast_to(A(case["xyz"], case["shapes"][0], d), (*sh, d))]
    if case["n"] > 1:
        out.append(np.broadcast_to(A(case["v"], case["shapes"][1], d), (*sh, d)))
    if case["n"] > 2:
        out.append(np.broadcast_to(A(case["a"], case["shapes"][2], d), (*sh, d)))
    return out


def build(case):
    """Rates of curvilinear systems depend on the position: those have the full shape."""
    d, lu, tu = case["dim"], case["lu"], case["tu"]
    sh = full(case)
    xyz, *rates = model(case)
    f = usc("kpc", lu)
    mem = {}
    x0 = A(case["xyz"], case["shapes"][0], d)
    mem["length"] = pos_from_xyz(case["reps"][0], x0 * f, lu, case["au"])
    for order, (r, raw, key) in enumerate(zip(rates, ("v", "a"), KEYS[1:]), 1):
        rep = case["reps"][order]
        if rep.startswith("cart"):
            c = A(case[raw], case["shapes"][order], d)
        else:
            c = ref.vel_from_cart(rep, ref.from_cart(rep, xyz), r)
        fac = np.array([usc(rate_unit(kd, "kpc", "Myr", order), rate_unit(kd, lu, tu, order))
                        for kd in ref.COMPS[rep].values()])
        mem[key] = mk_rate(rep, c * fac, lu, tu, order)
    items = [(KEYS[i], mem[KEYS[i]]) for i in case["perm"]]
    how = case["how"]
    if how == "kw":
        sp = cx.Space(**dict(items))
    elif how == "dict":
        sp = cx.Space(dict(items))
    elif how == "pairs":
        sp = cx.Space(items)
    elif how == "dim":
        sp = cx.Space({u.dimension(k): v for k, v in items})
    else:
        sp = cx.Space({ALIAS[k][-1]: v for k, v in items})
    return sp, mem, [k for k, _ in items]


def member_xyz(sp):
    """Cartesian position, velocity, acceleration of a space, by the reference geometry."""
    q = sp["length"]
    xyz = xyz_of(q, "kpc")
    out = [xyz]
    for order, key in ((1, "speed"), (2, "acceleration")):
        if key in sp:
            r = sp[key]
            rep = {c: k for k, c in (VEL if order == 1 else ACC).items()}[type(r)]
            vals = rate_of(r, rep, "kpc", "Myr", order)
            sh = np.broadcast_shapes(vals.shape[:-1], xyz.shape[:-1])
            vals = np.broadcast_to(vals, (*sh, vals.shape[-1]))
            xx = np.broadcast_to(xyz, (*sh, xyz.shape[-1]))
            out.append(ref.vel_to_cart(rep, ref.from_cart(rep, xx), vals))
    return out


def compare(sp, want, keys, tol, what):
    check(type(sp) is cx.Space, f"{what}: {type(sp)}")
    check(sorted(sp.keys()) == sorted(keys), f"{what}: keys {list(sp.keys())}, had {keys}")
    sc = max([1.0] + [scale_of(w) for w in want])
    for g, w, k in zip(member_xyz(sp), want, KEYS):
        g = np.broadcast_to(g, w.shape) if g.size <= w.size else g
        close(g, w, tol * sc, f"{what}: {k}")


@st.composite
def s_rep(draw):
    c = draw(space(mixed=draw(st.booleans())))
    return {"c": c, "to": draw(st.sampled_from(REPS[c["dim"]])), "jit": draw(st.integers(0, 5)) == 0}


@facet("C17", "represent_as", s_rep, quick=130, thorough=3000, modes=("x64", "f32"), f32_frac=0.15, shards=4)
def represent_as(case, ctx):
    """Every member is converted at the collection's own position (and velocity)."""
    c = case["c"]
    sp, mem, keys = build(c)
    want = model(c)
    for k in keys:
        check(sp[k] is mem[k] and sp[u.dimension(k)] is mem[k], f"member {k}")
    check(list(sp.keys()) == keys and list(sp) == keys, f"keys {list(sp.keys())} {keys}")
    tol = ctx.tol(2e-6, 3e-2)
    compare(sp, want, keys, tol, "as built")
    to = POS[case["to"]]
    f = lambda s: s.represent_as(to)
    out = (jax.jit(f) if case["jit"] else f)(sp)
    check(type(out["length"]) is to, f"{type(out['length'])}")
    if "speed" in keys:
        check(type(out["speed"]) is VEL[case["to"]], f"{type(out['speed'])}")
    if "acceleration" in keys:
        check(type(out["acceleration"]) is ACC[case["to"]], f"{type(out['acceleration'])}")
    check(out.shape == full(c), f"shape {out.shape}, expected {full(c)}")
    compare(out, want, keys, tol, f"represent_as {case['to']}")
    # the members' own conversions
    if tuple(c["shapes"][0]) == full(c) and all(m.shape == full(c) for m in mem.values()):
        same(out["length"], mem["length"].represent_as(to), ctx.tol(1e-9, 1e-3), "length by itself")
        if "speed" in keys:
            same(out["speed"], mem["speed"].represent_as(VEL[case["to"]], mem["length"]), ctx.tol(1e-9, 1e-2), "speed by itself")
        if "acceleration" in keys:
            same(out["acceleration"], mem["acceleration"].represent_as(ACC[case["to"]], mem["speed"], mem["length"]),
                 ctx.tol(1e-9, 1e-2), "acceleration by itself")
    check(out.represent_as(cx.Space) is out, "to a Space")
    back = out.represent_as(POS[c["reps"][0]])
    compare(back, want, keys, tol, "there and back")
    ctx.nt(len(keys) > 1 and scale_of(want[1]) > 0)
    ctx.label(f"{c['reps'][0]}->{case['to']}")


@st.composite
def s_hist(draw):
    mixed = draw(st.booleans())
    c = draw(space(shapes=[[3], [2, 3], [2, 1, 3], []], mixed=mixed))
    ops = draw(st.lists(st.fixed_dictionaries({
        "op": st.sampled_from(["rep", "idx", "T", "mT", "flat", "ravel", "reshape", "uconv", "jit", "copy", "tree", "neg",
                               "replace"]),
        "to": st.integers(0, 7), "i": st.integers(0, 5)}), min_size=1, max_size=5))
    return {"c": c, "ops": ops}


@facet("C17", "history", s_hist, quick=100, thorough=2500, shards=4)
def history(case, ctx):
    """Sequences of conversions and shape operations act on all members alike."""
    from unxt.unitsystems import unitsystem
    c = case["c"]
    d = c["dim"]
    sp, mem, keys = build(c)
    want = [np.array(w) for w in model(c)]
    tol = 3e-6
    for o in case["ops"]:
        op, i = o["op"], o["i"]
        nd = len(sp.shape)
        k = nd
        if op == "rep":
            sp = sp.represent_as(POS[REPS[d][o["to"] % len(REPS[d])]])
        elif op == "idx":
            if nd == 0:
                continue
            n = sp.shape[0]
            if n == 0:
                continue
            ix = [i % n, -1, slice(None, None, -1), np.array([0, i % n]), slice(0, 1 + i), (Ellipsis, 0)][o["to"] % 6]
            sp = sp[ix]
            jx = (Ellipsis, 0, slice(None)) if isinstance(ix, tuple) else ix
            want = [w[jx] for w in want]
        elif op == "T":
            sp, want = sp.T, [w.transpose(*range(k)[::-1], k) for w in want]
        elif op == "mT":
            if nd < 2:
                continue
            sp, want = sp.mT, [np.swapaxes(w, -3, -2) for w in want]
        elif op in ("flat", "ravel"):
            sp, want = (sp.flatten() if op == "flat" else sp.ravel()), [w.reshape(-1, d) for w in want]
        elif op == "reshape":
            n = sp.size
            s = [(n,), (1, n), (n, 1)][i % 3]
            sp, want = sp.reshape(*s), [w.reshape(*s, d) for w in want]
        elif op == "uconv":
            us = [{"length": "pc", "angle": "deg", "speed": "km/s", "angular speed": "mas/yr", "acceleration": "m/s2",
                   "angular acceleration": "deg/s2"}, unitsystem("pc", "yr", "Msun", "deg")][i % 2]
            sp = sp.uconvert(us)
        elif op == "jit":
            sp = jax.jit(lambda x: x)(sp)
        elif op == "copy":
            sp = [copy.copy, copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x))][i % 3](sp)
        elif op == "tree":
            sp = jtu.tree_map(lambda x: x, sp)
        elif op == "neg":
            if d == 1 or not all(isinstance(v, (cx.CartesianPos3D, V.CartesianPos2D, cx.CartesianVel3D, V.CartesianVel2D,
                                                V.CartesianAcc3D, V.CartesianAcc2D)) for v in sp.values()):
                continue
            sp, want = -sp, [-w for w in want]
        else:
            k2 = keys[i % len(keys)]
            new = sp[k2]
            sp = replace(sp, **{k2: new})
        check(sp.shape == want[0].shape[:-1], f"{op}: shape {sp.shape}, expected {want[0].shape[:-1]}")
        check(sp.ndim == len(sp.shape) and sp.size == int(np.prod(sp.shape)), f"{op}: ndim {sp.ndim} size {sp.size}")
        compare(sp, want, keys, tol, op)
    # readers
    dd = sp.asdict()
    check(set(dd) == set(keys) and all(dd[k] is sp[k] for k in keys), "asdict")
    check(len(list(field_values(sp))) == len(keys) and {k for k, _ in field_items(sp)} == set(keys), "fields")
    for k in keys:
        check(k in sp and sp.shapes[k] == sp[k].shape and sp.sizes[k] == sp[k].size, f"shapes {k}")
    ctx.nt(len(keys) > 1 and scale_of(want[1]) > 0)
    ctx.label(f"n{len(keys)}")


@st.composite
def s_bad(draw):
    return {"c": draw(space(shapes=[[3], [2, 3]])), "kind": draw(st.sampled_from(["dup", "shape", "nokey", "notvel"])),
            "bad": draw(st.sampled_from([[4], [5, 3], [2], [4, 1, 2]]))}


@facet("C17", "reject", s_bad, quick=40, thorough=400)
def reject(case, ctx):
    """Duplicate dimensions and members that do not broadcast are errors; missing members too."""
    c = dict(case["c"], n=max(2, case["c"]["n"]))
    c["perm"] = list(range(c["n"]))
    sp, mem, keys = build(c)
    kind = case["kind"]
    v = mem["speed"]
    ctx.nt()
    if kind == "dup":
        f = lambda: cx.Space({"length": mem["length"], "velocity": v, "speed": v})
    elif kind == "shape":
        try:
            np.broadcast_shapes(tuple(case["bad"]), full(c))
            raise Skip
        except ValueError:
            pass
        w = mk_rate(CARTOF[c["dim"]], np.ones((*case["bad"], c["dim"])))
        f = lambda: cx.Space(length=mem["length"], speed=w)
    elif kind == "nokey":
        f = lambda: sp["mass"]
    else:  # a velocity without a position can not change to a curvilinear system
        f = lambda: cx.Space(speed=v).represent_as(POS[REPS[c["dim"]][-1]])
    try:
        out = f()
    except Exception:  # noqa: BLE001
        return
    raise Violation(f"{kind} accepted: {out}")
