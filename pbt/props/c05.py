"""C05 metamorphic symmetries of the standardised indices."""
import numpy as np
from hypothesis import strategies as st

import gen
import ref
from client import DAILY, GAMMA, MONTHLY, PEARSON
from harness import check, is_error, need_array, same, test
from props.c03 import check_order

RULE = (
    "A case is a generated precipitation record (12 climates, zeros, negatives, missing values), "
    "distribution, scale, calibration period and one transformation: unit factor, change of values "
    "that enter only other calendar steps, permutation of calibration years, shift of the years. "
    "Non-trivial: at least 12 index values finite and strictly inside (-3.09, 3.09) take part."
)
ASSUMPTIONS = [
    "calendar steps without spread in the calibration years, and entries within rounding of a "
    "Pearson switch-over, are not compared",
]


@st.composite
def case(draw, per, whole=False, scale=None):
    if per == 12:
        rec = draw(gen.record(per=12, min_years=5, max_years=30, partial=not whole))
        s = scale or draw(gen.scales_monthly)
    else:
        rec = draw(gen.record(per=366, min_years=5, max_years=6, partial=not whole))
        s = scale or draw(gen.scales_daily)
    first = draw(gen.start_years)
    return {
        "rec": rec,
        "dist": draw(st.sampled_from(["gamma", "pearson"])),
        "scale": s,
        "first": first,
        "cal": draw(gen.window(first, rec["n"], per, min_len=draw(st.sampled_from([2, 5, 5])))),
        "seed2": draw(st.integers(0, 2**32 - 1)),
    }


def spi(worker, case, values, shift=0):
    return worker.call(
        "indices.spi", values, case["scale"], GAMMA if case["dist"] == "gamma" else PEARSON,
        case["first"] + shift, case["cal"][0] + shift, case["cal"][1] + shift,
        MONTHLY if case["rec"]["per"] == 12 else DAILY,
    )


def expected(case, values):
    per = case["rec"]["per"]
    window = gen.effective_window(case["first"], values.size, per, case["cal"])
    return ref.standardise(ref.clip_negatives(values), case["scale"], case["dist"], case["first"], window, per)


def labels(case, got, ignore):
    inside = np.isfinite(got) & (np.abs(got) < 3.09) & ~ignore
    return {case["dist"], "nontrivial"} if inside.sum() >= 12 else {case["dist"]}


def both(case, worker, v1, v2, shift=0):
    """(result 1, result 2, ignore) or None when a fit is refused for lack of spread."""
    _, i1, info1 = expected(case, v1)
    _, i2, info2 = expected(case, v2)
    if info1["reject"] or info2["reject"]:
        return None
    a = need_array(spi(worker, case, v1), "SPI", (v1.size,))
    b = need_array(spi(worker, case, v2, shift), "SPI", (v2.size,))
    return a, b, i1, i2


@test("C05", "units", st.tuples(st.one_of(*[case(12)] * 9, case(366)),
                                st.sampled_from([25.4, 1 / 25.4, 0.01, 1000.0, 0.1, 2.0, 0.001]) | st.floats(0.001, 1000.0)), quick=1200)
def units(case, worker):
    """SPI is unchanged when all precipitation is multiplied by a positive factor."""
    case, factor = case
    v = gen.build(case["rec"])
    if np.isnan(v).all():
        return {"all missing"}
    if case["dist"] == "pearson":
        _, _, info = expected(case, v)
        t = info["table"]
        pos = t[np.isfinite(t) & (t > 0)]
        if pos.size and pos.min() * min(1.0, factor) < 0.00051:
            return {"trace amounts"}
    r = both(case, worker, v, v * factor)
    if r is None:
        return {"no spread"}
    a, b, i1, i2 = r
    same(b, a, "SPI after a change of unit (factor %r)" % factor, rtol=0, atol=1e-5, ignore=i1 | i2)
    return labels(case, a, i1)


@test("C05", "order", st.one_of(*[case(12)] * 9, case(366)), quick=1200)
def order(case, worker):
    """Within a calendar step a larger sum never has a lower SPI."""
    v = gen.build(case["rec"])
    _, ignore, info = expected(case, v)
    if info["reject"] or np.isnan(v).all():
        return {"no spread"}
    got = need_array(spi(worker, case, v), "SPI", (v.size,))
    check_order(info["table"], got, ignore, case["dist"], case["rec"]["per"])
    return labels(case, got, ignore)


@test("C05", "columns", st.one_of(*[case(12)] * 9, case(366)), quick=1200)
def columns(case, worker):
    """Changing values that only enter other calendar steps' sums changes nothing."""
    per, scale = case["rec"]["per"], case["scale"]
    v = gen.build(case["rec"])
    rng = np.random.Generator(np.random.PCG64(case["seed2"]))
    touched = rng.choice(per, size=int(rng.integers(1, 3)), replace=False)
    w = v.copy()
    for j in touched:
        w[j::per] = w[j::per] * rng.uniform(0.3, 3.0, w[j::per].size) + rng.uniform(0, 30.0, w[j::per].size)
    affected = np.zeros(per, bool)
    for j in touched:
        affected[[(j + d) % per for d in range(min(scale, per))]] = True
    if affected.all() or np.isnan(v).all():
        return {"scale covers the year"}
    r = both(case, worker, v, w)
    if r is None:
        return {"no spread"}
    a, b, i1, i2 = r
    skip = i1 | i2 | affected[np.arange(v.size) % per]
    same(b, a, "SPI of untouched calendar steps", rtol=0, atol=1e-9, ignore=skip)
    return labels(case, a, skip)


@test("C05", "permutation", st.one_of(*[case(12, True, 1)] * 9, case(366, True, 1)), quick=1200)
def permutation(case, worker):
    """Permuting whole calibration years permutes the scale-1 results."""
    per = case["rec"]["per"]
    v = gen.build(case["rec"])
    if np.isnan(v).all():
        return {"all missing"}
    a0, b0 = gen.effective_window(case["first"], v.size, per, case["cal"])
    rows = np.arange(v.size // per)
    rng = np.random.Generator(np.random.PCG64(case["seed2"]))
    lo, hi = a0 - case["first"], b0 - case["first"] + 1
    rows[lo:hi] = rng.permutation(rows[lo:hi])
    r = both(case, worker, v, v.reshape(-1, per)[rows].ravel())
    if r is None:
        return {"no spread"}
    a, b, i1, i2 = r
    take = lambda x: x.reshape(-1, per)[rows].ravel()
    same(b, take(a), "SPI after permuting calibration years", rtol=0, atol=1e-5, ignore=take(i1) | i2)
    out = labels(case, a, i1)
    if (rows == np.arange(rows.size)).all():
        out.discard("nontrivial")
    return out


@test("C05", "years", st.tuples(st.one_of(*[case(12)] * 9, case(366)), st.integers(-500, 500)), quick=600)
def years(case, worker):
    """Shifting data start and calibration years together changes nothing."""
    case, shift = case
    v = gen.build(case["rec"])
    r = both(case, worker, v, v, shift)
    if r is None:
        return {"no spread"}
    a, b, i1, _ = r
    same(b, a, "SPI after shifting all years by %d" % shift, rtol=0, atol=1e-9, ignore=i1)
    return labels(case, a, i1)
