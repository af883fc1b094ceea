"""C14 the Pearson Type III fit reproduces the sample L-moments."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy import special

import ref
from codec import Arr
from harness import check, fail, is_error, need_value, test

RULE = (
    "A case is a sample of 4 to 80 values (normal, skewed both ways, heavy-tailed, tied, tiny or huge "
    "scale, explicit small values), with missing values placed anywhere, and a transformation (order, "
    "shift, positive factor, negation); or a sample to be rejected (fewer than four values, no spread). "
    "Non-trivial: the sample has spread and its L-skewness is inside (-0.999, 0.999), or a rejection was due."
)
ASSUMPTIONS = [
    "the published approximation error of the L-skewness is below 1e-4",
    "samples whose relative spread is below 1e-6 are not compared numerically",
]
KINDS = ["normal", "gamma", "negskew", "heavy", "ties", "symmetric", "uniform", "twovalues"]


@st.composite
def case(draw, min_n=4):
    n = draw(st.integers(min_n, 12) | st.integers(min_n, 80))
    return {
        "n": n,
        "kind": draw(st.sampled_from(KINDS)),
        "seed": draw(st.integers(0, 2**32 - 1)),
        "offset": draw(st.sampled_from([0.0, 0.0, 100.0, -50.0, 1000.0])),
        "unit": draw(st.sampled_from([1.0, 1.0, 1e-3, 1e4])),
        "edits": draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(-20, 100).map(float)).map(list), max_size=4)),
        "holes": draw(st.lists(st.integers(0, n), max_size=4)),
        "layout": draw(st.sampled_from(["C", "C", "strided", "reversed"])),
    }


def build(case):
    rng = np.random.Generator(np.random.PCG64(case["seed"]))
    n, kind = case["n"], case["kind"]
    if kind == "normal":
        v = rng.normal(10, 3, n)
    elif kind == "gamma":
        v = rng.gamma(rng.uniform(0.2, 4), 10, n)
    elif kind == "negskew":
        v = 50 - rng.gamma(0.7, 6, n)
    elif kind == "heavy":
        v = np.exp(rng.normal(0, 2.2, n))
    elif kind == "ties":
        v = rng.integers(0, 5, n).astype(float)
    elif kind == "symmetric":
        h = rng.normal(0, 2, n // 2)
        v = np.concatenate([h, -h, np.zeros(n - 2 * (n // 2))])
    elif kind == "uniform":
        v = rng.random(n) * 100
    else:
        v = np.where(rng.random(n) < rng.uniform(0.05, 0.95), 3.0, 8.0)
    for i, x in case["edits"]:
        v[i] = x
    return (v + case["offset"]) * case["unit"]


def with_holes(v, holes):
    return np.insert(v, [min(h, v.size) for h in holes], np.nan)


def usable(v):
    l1, l2, t3 = ref.lmoments(v)
    size = np.abs(v).max()
    return l2 > 1e-6 * size and abs(t3) < 1 - 1e-6


def fit(worker, v, what="lmoments.fit"):
    got = need_value(worker.call("lmoments.fit", v), what)
    check(isinstance(got, dict) and {"loc", "scale", "skew"} <= set(got), "fit does not return loc, scale and skew", got=got)
    return float(got["loc"]), float(got["scale"]), float(got["skew"])


def theoretical(loc, scale, skew):
    """L-moments of the Pearson Type III distribution."""
    if abs(skew) < 1e-5:
        return loc, scale / math.sqrt(math.pi), 0.0
    alpha = 4.0 / skew**2
    # log Gamma(alpha + 1/2) - log Gamma(alpha) without cancellation
    ratio = special.poch(alpha, 0.5) if alpha < 1e6 else math.sqrt(alpha) * (1 - 1 / (8 * alpha))
    l2 = scale / math.sqrt(math.pi * alpha) * ratio
    t3 = 6.0 * special.betainc(alpha, 2 * alpha, 1.0 / 3.0) - 3.0 if alpha < 1e8 else 0.0
    return loc, l2, math.copysign(t3, skew)


@test("C14", "l_moments", case(), quick=6000)
def l_moments(case, worker):
    """The fitted distribution's L-moments are the sample's."""
    v = build(case)
    if not usable(v):
        return {"no spread"}
    l1, l2, t3 = ref.lmoments(v)
    size = np.abs(v).max()
    loc, scale, skew = fit(worker, Arr(with_holes(v, case["holes"]), case["layout"]))
    check(scale > 0 and all(map(math.isfinite, (loc, scale, skew))), "impossible parameters", got=(loc, scale, skew))
    m1, m2, m3 = theoretical(loc, scale, skew)
    noise = digits = 1e-13 * size / l2
    if skew:
        # lgamma(alpha) - lgamma(alpha + 1/2) of the published method loses digits for a tiny skew
        alpha = 4.0 / skew**2
        digits += 4e-16 * alpha * abs(math.log(alpha))
    check(abs(m1 - l1) <= 1e-9 * size, "mean of the fit is not the sample's", got=m1, expected=l1)
    check(abs(m2 - l2) <= (2e-5 + digits) * l2, "L-scale of the fit is not the sample's", got=m2, expected=l2)
    check(abs(m3 - t3) <= 1e-4 + 10 * noise, "L-skewness of the fit is not the sample's", got=m3, expected=t3)
    out = {"nontrivial", case["kind"]} if abs(t3) < 0.999 else {case["kind"]}
    if case["holes"]:
        out.add("missing values")
    if abs(t3) >= 1 / 3:
        out.add("strong skew")
    return out


@test("C14", "equivariance", st.tuples(case(), st.integers(-1000, 1000), st.floats(0.01, 100), st.integers(0, 2**32 - 1)), quick=3000)
def equivariance(case, worker):
    """Order does not matter; shift, positive factor and negation act as on the distribution."""
    case, shift, factor, seed = case
    v = build(case)
    if not usable(v) or not usable(v + shift):
        return {"no spread"}
    l1, l2, t3 = ref.lmoments(v)
    if abs(abs(t3) - 1 / 3) < 1e-6 or 0 < abs(t3) < 1e-4:
        return {"switch-over"}
    size = max(np.abs(v).max(), np.abs(v + shift).max())
    noise = 1e-12 * size / l2
    base = fit(worker, v)

    def close(got, e, what):
        ok = (
            abs(got[0] - e[0]) <= 1e-9 * max(size, size * abs(factor))
            and abs(got[1] - e[1]) <= (1e-7 + 100 * noise) * e[1]
            and abs(got[2] - e[2]) <= (1e-6 + 100 * noise) * (1 + abs(e[2])) + (1e-3 if abs(t3) < 1e-4 else 0)
        )
        check(ok, "fit after " + what + " does not match", got=got, expected=e)

    perm = np.random.Generator(np.random.PCG64(seed)).permutation(v)
    close(fit(worker, perm), base, "reordering")
    close(fit(worker, v + shift), (base[0] + shift, base[1], base[2]), "a shift of %d" % shift)
    close(fit(worker, v * factor), (base[0] * factor, base[1] * factor, base[2]), "a factor of %r" % factor)
    close(fit(worker, -v), (-base[0], base[1], -base[2]), "negation")
    return {"nontrivial"} if abs(t3) < 0.999 else set()


@test("C14", "rejections", st.tuples(st.sampled_from(["few", "constant"]), st.lists(st.floats(-1e4, 1e4).map(lambda x: round(x, 3)), max_size=3),
                                     st.floats(-1e4, 1e4) | st.integers(0, 50).map(lambda x: x / 10), st.integers(4, 60), st.lists(st.integers(0, 60), max_size=6)), quick=1500)
def rejections(case, worker):
    """Fewer than four values, or values without spread: refused with ValueError."""
    what, few, x, n, holes = case
    v = np.array(few) if what == "few" else np.full(n, float(x))
    got = worker.call("lmoments.fit", with_holes(v, holes))
    check(is_error(got, "ValueError"), "a sample with %s was not rejected with ValueError" % ("fewer than four values" if what == "few" else "no spread"), got=got)
    return {"nontrivial", what}
