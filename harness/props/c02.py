"""C02: components follow the documented conventions; invalid components are rejected."""

from gens import *
from core import facet
from props.c01 import kinds, native, build, convert_to, azim_deg, f32_pole

RULE = ("A case is a representation and a batch of components: valid (must be stored as given, "
        "azimuths reduced to one turn), with one invalid element (must be rejected), with a "
        "component of the wrong physical dimension (must be rejected), or a conversion whose "
        "result must satisfy the ranges. Non-trivial: a wrapped azimuth, a rejected element "
        "inside a batch, or a conversion between different representations.")

ALL = REPS3P + REPS2 + REPS1


def ranges_ok(vec, rep, ctx, what):
    eps = ctx.tol(1e-12, 1e-5)
    for k, kd in kinds(rep):
        q = getattr(vec, k)
        if kd == "L+":
            v = val(q, "kpc")
            check(bool(np.all(v >= 0)), f"{what}: {k} negative: {v.tolist()}")
        elif kd == "A":
            v = val(q, "deg")
            check(bool(np.all((v >= 0) & (v <= 360 * (1 + eps)))), f"{what}: azimuth {k} = {v.tolist()} deg")
        elif kd == "P":
            v = val(q, "deg")
            check(bool(np.all((v >= -180 * eps) & (v <= 180 * (1 + eps)))), f"{what}: polar {k} = {v.tolist()} deg")
        elif kd == "B":
            v = val(q, "deg")
            check(bool(np.all(np.abs(v) <= 90 * (1 + eps))), f"{what}: latitude {k} = {v.tolist()} deg")
    if rep == "prolate":
        d2 = val(vec.Delta, "kpc") ** 2
        check(bool(np.all(val(vec.mu, "kpc2") >= d2 * (1 - eps))), f"{what}: mu < Delta^2")
        check(bool(np.all(np.abs(val(vec.nu, "kpc2")) <= d2 * (1 + eps))), f"{what}: |nu| > Delta^2")


@facet("C02", "valid", lambda: native(ALL, ["cart3"]), quick=200, thorough=3000, modes=("x64", "f32"), shards=2)
def valid(case, ctx):
    """Direct construction from valid quantities stores the values and units given; azimuths
    are reduced modulo one turn."""
    a, lu, au = case["a"], case["lu"], case["au"]
    if a in REPS1:
        pass
    if a == "radial":
        case = dict(case, c={k: [abs(x) for x in v] for k, v in case["c"].items()})
    vec, xyz = build(case, ctx)
    shape = tuple(case["shape"])
    wrapped = False
    for k, kd in kinds(a):
        q = getattr(vec, k)
        want = A(case["c"][k], shape)
        check(tuple(q.shape) == shape, f"{k} has shape {q.shape}, not {shape}")
        if kd in ("A", "P", "B"):
            check(apu.Unit(str(q.unit)).is_equivalent("rad"), f"{k}: unit {q.unit}")
            got = val(q, "deg")
            tol = ctx.tol(1e-9, 2e-2 if au == "arcmin" else 5e-4)
            if kd == "A":
                close_ang(np.deg2rad(got), np.deg2rad(want), np.deg2rad(tol), f"{a}.{k}")
                wrapped |= bool(np.any((want < 0) | (want >= 360)))
            else:
                close(got, want, tol, f"{a}.{k}")
        else:
            un = lu if kd != "L2" else f"{lu}2"
            check(q.unit == apu.Unit(un) or kd == "L2", f"{k}: unit {q.unit}, given {un}")
            close(val(q, un), want, ctx.tol(1e-12, 3e-5) * scale_of(want), f"{a}.{k}")
    ranges_ok(vec, a, ctx, f"constructed {a}")
    ctx.nt(wrapped or a == "prolate")


@st.composite
def invalid_case(draw):
    rep = draw(st.sampled_from(["cyl", "sph", "math", "lonlat", "prolate", "polar", "radial", "twosphere"]))
    bad = {"cyl": ["rho"], "sph": ["r", "theta"], "math": ["r", "phi"], "lonlat": ["lat", "distance"],
           "prolate": ["mu", "nu", "Delta"], "polar": ["r"], "radial": ["r"], "twosphere": ["theta"]}[rep]
    which = draw(st.sampled_from(bad))
    shape = draw(st.sampled_from(SHAPES))
    return {"rep": rep, "which": which, "shape": shape, "at": draw(st.integers(0, max(size(shape) - 1, 0))),
            "amount": draw(st.one_of(fl(0.01, 5), st.sampled_from([1e-3, 100.0, 200.0]))),
            "side": draw(st.sampled_from([-1, 1])), "lu": draw(st.sampled_from(LUNITS)),
            "au": draw(st.sampled_from(AUNITS)), "base": draw(fl(0.1, 3))}


@facet("C02", "invalid", invalid_case, quick=160, thorough=2500, modes=("x64", "f32"), shards=2)
def invalid(case, ctx):
    """One element outside the documented range: construction raises.  The same components with
    that element inside the range construct."""
    rep, which, shape, lu, au = (case[k] for k in ("rep", "which", "shape", "lu", "au"))
    cls = cx.vecs.TwoSpherePos if rep == "twosphere" else POS[rep]
    D = 1.5
    deg = usc("deg", au)
    base = {"r": (case["base"], lu), "rho": (case["base"], lu), "distance": (case["base"], lu),
            "z": (-1.0, lu), "mu": (D * D + case["base"], f"{lu}2"), "nu": (-0.5, f"{lu}2")}
    comps = {"twosphere": {"theta": "P", "phi": "A"}}.get(rep) or dict(kinds(rep))
    kw = {}
    for k, kd in comps.items():
        if kd in ("A", "P", "B"):
            kw[k] = [np.full(tuple(shape), {"A": 200.0, "P": 60.0, "B": -30.0}[kd] * deg), au]
        else:
            v, un = base[k]
            kw[k] = [np.full(tuple(shape), v), un]
    if rep == "prolate":
        kw["Delta"] = [np.asarray(D), lu]
    mk = lambda: cls(**{k: Q(v.copy(), un) for k, (v, un) in kw.items()})  # noqa: E731
    mk()  # valid
    am = case["amount"]
    v = kw[which][0]
    kd = comps.get(which)
    if kd == "P":
        bad = (-am if case["side"] < 0 else 180 + am) * deg
    elif kd == "B":
        bad = case["side"] * (90 + am) * deg
    elif which == "mu":
        bad = D * D - min(am, 2.0)
    elif which == "nu":
        bad = case["side"] * (D * D + am)
    elif which == "Delta":
        bad = -am if case["side"] < 0 else 0.0
    else:
        bad = -am
    if v.ndim and which != "Delta":
        v.reshape(-1)[case["at"]] = bad
    else:
        kw[which][0] = np.asarray(float(bad))
    try:
        out = mk()
    except Exception:  # noqa: BLE001
        ctx.nt(bool(shape))
        ctx.label(f"{rep}.{which}")
        return
    raise Violation(f"{cls.__name__} accepted {which}={bad} {kw[which][1]}: {out}")


@st.composite
def dim_case(draw):
    order = draw(st.sampled_from([0, 1, 2]))
    rep = draw(st.sampled_from(ALL if order == 0 else [r for r in ALL]))
    comps = list(ref.COMPS[rep])
    return {"rep": rep, "order": order, "which": draw(st.sampled_from(comps)),
            "wrong": draw(st.sampled_from(["s", "kg", "km / s", "rad", "km", "rad / s", "", "km2", "km / s2", "rad / s2", "km2 / s", "km2 / s2"])),
            "v": draw(fl(0.1, 0.9))}


@facet("C02", "dimension", dim_case, quick=100, thorough=1500, modes=("x64",))
def dimension(case, ctx):
    """A component whose unit has the wrong physical dimension is rejected by construction."""
    rep, order, which, wrong = (case[k] for k in ("rep", "order", "which", "wrong"))
    kdw = ref.COMPS[rep][which]
    right = kind_unit(kdw, "km") if order == 0 else rate_unit(kdw, "km", "s", order)
    if apu.Unit(wrong).is_equivalent(apu.Unit(right)):
        raise Skip
    if apu.Unit(wrong).physical_type == "dimensionless" and order == 0 and kdw in "APB":
        pass
    pre = ["", "d_", "d2_"][order]
    cls = [POS, VEL, ACC][order][rep]
    kw = {}
    for k, kd in ref.COMPS[rep].items():
        un = kind_unit(kd, "km") if order == 0 else rate_unit(kd, "km", "s", order)
        v = {"mu": 2.0, "nu": 0.5}.get(k, 0.5)
        kw[pre + k] = Q(v, un)
    if rep == "prolate" and order == 0:
        kw["Delta"] = Q(1.0, "km")
    cls(**kw)
    kw[pre + which] = Q(case["v"], wrong)
    try:
        out = cls(**kw)
    except Exception:  # noqa: BLE001
        ctx.nt()
        return
    raise Violation(f"{cls.__name__} accepted {pre + which} in {wrong!r}: {out!r}")


@facet("C02", "converted", lambda: st.one_of(native(REPS3, REPS3P), native(REPS2, REPS2)), quick=160,
       thorough=2500, modes=("x64", "f32"), shards=2)
def converted(case, ctx):
    """The result of a conversion satisfies the ranges of its class, and its azimuth, polar
    angle and radius are those of the reference point."""
    vec, xyz = build(case, ctx)
    a, b, lu = case["a"], case["b"], case["lu"]
    kw = {"Delta": Q(case["Delta"], lu)} if b == "prolate" else {}
    out = convert_to(vec, b, case["form"], **kw)
    ranges_ok(out, b, ctx, f"{a}->{b}")
    sc = scale_of(xyz, case.get("Delta") or 0)
    want = ref.from_cart(b, xyz, case.get("Delta"))
    dim = ref.DIM[b]
    rho = np.hypot(xyz[..., 0], xyz[..., 1])
    r = np.linalg.norm(xyz, axis=-1)
    off_axis = rho > 0.05 * sc
    for k, kd in kinds(b):
        g = val(getattr(out, k), kind_unit("L" if kd == "L+" else kd, lu))
        w = want[k]
        if kd == "A":
            close_ang(np.where(off_axis, g, 0), np.where(off_axis, w, 0), ctx.tol(1e-9, 2e-3), f"{a}->{b} {k}")
        elif kd in ("P", "B"):
            ok = r > 0.05 * sc
            close(np.where(ok, g, 0), np.where(ok, w, 0), ctx.tol(2e-6, 2e-2), f"{a}->{b} {k}")
        elif kd == "L2":
            close(g, w, ctx.tol(1e-7, 1e-2) * sc**2, f"{a}->{b} {k}")
        else:
            close(g, w, ctx.tol(1e-7, 5e-3) * sc, f"{a}->{b} {k}")
    ctx.nt(a != b and bool(np.any(off_axis)))
    del dim
