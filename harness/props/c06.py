"""C06: acceleration conversion applies the Jacobian at the given position."""

from gens import *
from core import facet
from props.c05 import vel_case, setup, conv, run_path, points

RULE = ("A case is a batch of regular positions, accelerations and velocities (vectors of any system, "
        "or plain Cartesian quantities), units, and one conversion or a chain. Non-trivial: the "
        "acceleration is not zero and its system changes.")
ASSUMPTIONS = ["the documented rule is the Jacobian applied to the acceleration; the term quadratic in "
               "the velocity is left out by the library (TODO in the source) and so by the property"]


@st.composite
def acc_case(draw, n_path=1):
    case = draw(vel_case(n_path=n_path, order=2))
    case["velform"] = draw(st.sampled_from(["vec", "quantity"]))
    case["vel"] = draw(points(case["shape"], case["dim"]))
    return case


def vel_arg(case):
    dim, lu, tu = case["dim"], case["lu"], case["tu"]
    v = A(case["vel"], case["shape"], dim)
    if case["velform"] == "quantity":
        return Q(v, f"{lu}/{tu}")
    return mk_rate(CARTOF[dim], v, lu, tu)


@facet("C06", "convert", lambda: acc_case(), quick=170, thorough=3000, modes=("x64", "f32"), shards=6,
       f32_frac=0.25)
def convert(case, ctx):
    """One conversion: Cartesian components (analytic Jacobian) and so the magnitude are kept."""
    run_path(case, ctx, ACC, 2, (vel_arg(case),))


@facet("C06", "chain", lambda: acc_case(4), quick=50, thorough=1000, modes=("x64",), shards=4)
def chain(case, ctx):
    """A chain of conversions keeps the Cartesian components at every step."""
    run_path(case, ctx, ACC, 2, (vel_arg(case),))


@facet("C06", "linear", acc_case, quick=30, thorough=600, modes=("x64",), shards=3)
def linear(case, ctx):
    """Doubling and adding commute with the conversion."""
    xyz, pos, vc, comp, D = setup(case)
    a, b, lu, tu = case["a"], case["path"][0], case["lu"], case["tu"]
    wc = A(case["vel"], case["shape"], case["dim"])  # any other acceleration
    wcomp = ref.vel_from_cart(a, ref.from_cart(a, xyz, D), wc, D)
    case = dict(case, _kw="prolate" in (a, b, case["prep"]))
    outs = [rate_of(conv(mk_rate(a, c, lu, tu, 2), ACC[b], case, vel_arg(case), pos), b, lu, tu, 2)
            for c in (comp, wcomp, 2 * comp - 3 * wcomp)]
    tol = ctx.tol(1e-7 if "prolate" in (a, b, case["prep"]) else 1e-10, 0)
    close(outs[2], 2 * outs[0] - 3 * outs[1], tol * scale_of(*outs), f"{a}->{b} is not linear")
    ctx.nt(a != b and scale_of(vc) > 0)
