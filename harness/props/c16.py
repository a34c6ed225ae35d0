"""C16: Poincare polar phase-space coordinates denote the same phase-space point."""

import jax

from gens import *
from core import facet

RULE = ("A case is a phase-space point or a batch of them (position and velocity each in a random 3-D system and own "
        "units, off the z axis), of either sense of rotation or without angular momentum. Non-trivial: the angular "
        "momentum is not zero.")
ASSUMPTIONS = ["Papaphilippou & Laskar (1996): rho, z, v_rho, v_z and sqrt(2 |L_z|) (cos phi, sin phi) is the oracle",
               "unit conversion by a unit system raises (the pp_phi dimension has no name); only consistent units are used"]
V = cx.vecs
PP = "kpc rad(1/2) / Myr(1/2)"


@st.composite
def s_case(draw):
    shape = draw(st.sampled_from([[], [3], [2, 3], [1]]))
    n = size(shape)
    R = draw(st.lists(fl(0.2, 9), min_size=n, max_size=n))
    ph = draw(st.lists(fl(-3.14, 3.14), min_size=n, max_size=n))
    z = draw(st.lists(coord(), min_size=n, max_size=n))
    return {"shape": shape, "R": R, "phi": ph, "z": z,
            "v": draw(st.lists(st.lists(coord(), min_size=3, max_size=3), min_size=n, max_size=n)),
            "sense": draw(st.sampled_from(["any", "any", "pos", "zero"])),
            "rq": draw(st.sampled_from(REPS3)), "rp": draw(st.sampled_from(REPS3)),
            "lu": draw(st.sampled_from(["kpc", "pc", "km"][: 2 if os.environ.get("VERIF_MODE") == "f32" else 3])),
            "lv": draw(st.sampled_from(["kpc", "pc"])), "tu": draw(st.sampled_from(["Myr", "yr"])),
            "au": draw(st.sampled_from(["rad", "deg"])), "acc": draw(st.booleans()), "jit": draw(st.integers(0, 5)) == 0}


def build(case):
    shape = tuple(case["shape"])
    R, ph, z = A(case["R"], shape), A(case["phi"], shape), A(case["z"], shape)
    v = A(case["v"], shape, 3)  # v_rho, v_phi (physical), v_z
    vr, vt, vz = v[..., 0], v[..., 1], v[..., 2]
    if case["sense"] == "pos":
        vt = np.abs(vt)
    if case["sense"] == "zero":
        vt = 0 * vt
    xyz = np.stack([R * np.cos(ph), R * np.sin(ph), z], -1)
    vel = np.stack([vr * np.cos(ph) - vt * np.sin(ph), vr * np.sin(ph) + vt * np.cos(ph), vz], -1)
    f = usc("kpc", case["lu"])
    q = pos_from_xyz(case["rq"], xyz * f, case["lu"], case["au"])
    rp = case["rp"]
    comp = ref.vel_from_cart(rp, ref.from_cart(rp, xyz), vel)
    fac = np.array([usc(rate_unit(kd, "kpc", "Myr"), rate_unit(kd, case["lv"], case["tu"])) for kd in ref.COMPS[rp].values()])
    p = mk_rate(rp, comp * fac, case["lv"], case["tu"])
    return q, p, R, ph, z, vr, vt, vz


@facet("C16", "forward_back", s_case, quick=160, thorough=4000, modes=("x64", "f32"), f32_frac=0.2, shards=3)
def forward_back(case, ctx):
    """Space -> Poincare polar by the formulas, and back."""
    q, p, R, ph, z, vr, vt, vz = build(case)
    shape = tuple(case["shape"])
    sp = cx.Space(length=q, speed=p)
    f = lambda s: s.represent_as(V.PoincarePolarVector)
    w = (jax.jit(f) if case["jit"] else f)(sp)
    check(type(w) is V.PoincarePolarVector, f"{type(w)}")
    check(w.shape == shape, f"shape {w.shape}, expected {shape}")
    sc = max(1.0, scale_of(R, z, vr, vt, vz))
    tol = ctx.tol(1e-6, 3e-3) * sc
    close(val(w.rho, "kpc"), R, tol, "rho")
    close(val(w.z, "kpc"), z, tol, "z")
    close(val(w.d_rho, "kpc/Myr"), vr, tol, "d_rho")
    close(val(w.d_z, "kpc/Myr"), vz, tol, "d_z")
    a, b = val(w.pp_phi, PP), val(w.d_pp_phi, PP)
    L = R * vt
    tolL = ctx.tol(1e-6, 1e-2) * max(1.0, scale_of(L), sc)
    close((a**2 + b**2) / 2, np.abs(L), 2 * tolL, "angular momentum")
    s = np.sqrt(2 * np.abs(L))
    big = np.abs(L) > 0.05 * (20 if ctx.f32 else 1)
    close(np.where(big, a, 0), np.where(big, s * np.cos(ph), 0), ctx.tol(1e-5, 3e-2) * max(1, scale_of(s)), "pp_phi")
    close(np.where(big, b, 0), np.where(big, s * np.sin(ph), 0), ctx.tol(1e-5, 3e-2) * max(1, scale_of(s)), "d_pp_phi")
    # back
    back = w.represent_as(cx.Space)
    check(isinstance(back, cx.Space) and sorted(back) == ["length", "speed"], f"{back}")
    cq, cp = back["length"], back["speed"]
    check(type(cq) is V.CylindricalPos and type(cp) is V.CylindricalVel, f"{type(cq)} {type(cp)}")
    close(val(cq.rho, "kpc"), R, tol, "back: rho")
    close(val(cq.z, "kpc"), z, tol, "back: z")
    close(val(cp.d_rho, "kpc/Myr"), vr, tol, "back: d_rho")
    close(val(cp.d_z, "kpc/Myr"), vz, tol, "back: d_z")
    close(np.where(big, ref.angdiff(val(cq.phi, "rad"), ph), 0), np.zeros(shape), ctx.tol(1e-4, 3e-2), "back: phi")
    close(val(cp.d_phi, "rad/Myr") * R**2, np.abs(L), 2 * tolL, "back: d_phi")
    # a point that rotates in the positive sense comes back entirely
    if case["sense"] == "pos" and np.all(big) and not ctx.f32:
        x = xyz_of(cq, "kpc")
        close(x, xyz_of(q, "kpc"), 1e-4 * sc, "back: point")
        v = back["speed"].represent_as(cx.CartesianVel3D, cq)
        v0 = p.represent_as(cx.CartesianVel3D, q)
        close(rate_of(v, "cart3"), rate_of(v0, "cart3"), 1e-4 * sc, "back: velocity")
    # once more: the same coordinates
    again = back.represent_as(V.PoincarePolarVector)
    close(val(again.rho, "kpc"), val(w.rho, "kpc"), tol, "again: rho")
    close(np.where(big, val(again.pp_phi, PP), 0), np.where(big, a, 0), ctx.tol(1e-5, 3e-2) * max(1, scale_of(s)), "again: pp_phi")
    close(np.where(big, val(again.d_pp_phi, PP), 0), np.where(big, b, 0), ctx.tol(1e-5, 3e-2) * max(1, scale_of(s)), "again: d_pp_phi")
    check(w.represent_as(V.PoincarePolarVector) is w or type(w.represent_as(V.PoincarePolarVector)) is type(w), "self")
    ctx.nt(bool(np.any(np.abs(L) > 0)))
    ctx.label(f"{case['rq']}-{case['rp']}")


@st.composite
def s_inv(draw):
    case = draw(s_case())
    return {"case": case, "rq": draw(st.sampled_from(REPS3)), "rp": draw(st.sampled_from(REPS3)), "turn": draw(fl(-3, 3))}


@facet("C16", "invariance", s_inv, quick=66, thorough=2000, shards=3)
def invariance(case, ctx):
    """The coordinates do not depend on the representation; turning the point turns (pp_phi, d_pp_phi)."""
    c = case["case"]
    q, p, R, ph, z, vr, vt, vz = build(c)
    w = cx.Space(length=q, speed=p).represent_as(V.PoincarePolarVector)
    q2 = q.represent_as(POS[case["rq"]])
    p2 = p.represent_as(VEL[case["rp"]], q)
    w2 = cx.Space(length=q2, speed=p2).represent_as(V.PoincarePolarVector)
    L = R * vt
    sc = max(1.0, scale_of(R, z, vr, vt, vz, L))
    ok = np.abs(L) > 0.05
    for k, un in (("rho", "kpc"), ("z", "kpc"), ("d_rho", "kpc/Myr"), ("d_z", "kpc/Myr"), ("pp_phi", PP), ("d_pp_phi", PP)):
        g, h = val(getattr(w2, k), un), val(getattr(w, k), un)
        if k in ("pp_phi", "d_pp_phi"):
            g, h = np.where(ok, g, 0), np.where(ok, h, 0)
        close(g, h, 1e-5 * sc, f"{k} from {case['rq']}, {case['rp']}")
    t = case["turn"]
    c3 = dict(c, phi=[x + t for x in c["phi"]])
    q3, p3, *_ = build(c3)
    w3 = cx.Space(length=q3, speed=p3).represent_as(V.PoincarePolarVector)
    a, b = val(w.pp_phi, PP), val(w.d_pp_phi, PP)
    close(np.where(ok, val(w3.pp_phi, PP), 0), np.where(ok, a * np.cos(t) - b * np.sin(t), 0), 1e-5 * sc, "turned pp_phi")
    close(np.where(ok, val(w3.d_pp_phi, PP), 0), np.where(ok, a * np.sin(t) + b * np.cos(t), 0), 1e-5 * sc, "turned d_pp_phi")
    ctx.nt(bool(np.any(ok)))
