"""C04 output length, range and missing-value pattern."""
import numpy as np
from hypothesis import strategies as st

import gen
import ref
from client import DAILY, GAMMA, MONTHLY, PEARSON
from codec import Arr
from harness import check, fail, is_error, need_array, need_value, plain, test
from props import c03

RULE = (
    "A case is one SPI, SPEI or percent-of-normal call on a generated record of any length (from a "
    "single value to decades, partial years, all-missing, mostly missing, long dry spells), any "
    "scale incl. longer than the record, either distribution and periodicity, 1-D, 2-D, masked or "
    "plain. Non-trivial: the result has both missing and present values, or the scale exceeds 1 and "
    "some window is complete."
)
ASSUMPTIONS = ["calendar steps without spread in the calibration years may or may not have a value"]

NANS = gen.NAN_PATTERNS + ["all", "most", "scatter"]


@st.composite
def case(draw, per):
    if per == 12:
        rec = draw(records(12, 0, 20))
        scale = draw(gen.scales_monthly)
    else:
        rec = draw(records(366, 1, 6))
        scale = draw(gen.scales_daily)
    first = draw(gen.start_years)
    return {
        "index": draw(st.sampled_from(["spi", "spi", "spei", "pnp"])),
        "dist": draw(st.sampled_from(["gamma", "pearson"])),
        "rec": rec,
        "pet": draw(c03.pets),
        "scale": scale,
        "first": first,
        "cal": draw(gen.window(first, rec["n"], per, min_len=draw(st.sampled_from([1, 5, 5])))),
        "two": draw(st.booleans()) if rec["n"] % per == 0 else False,
        "masked": draw(st.sampled_from([False, False, True])),
    }


@st.composite
def records(draw, per, lo, hi):
    years = draw(st.integers(lo, hi))
    n = max(1, years * per + draw(st.sampled_from([0, 0, 1, per // 2, per - 1]) | st.integers(0, per - 1)))
    return {
        "per": per, "n": n, "climate": draw(st.sampled_from(gen.CLIMATES)),
        "seed": draw(st.integers(0, 2**32 - 1)), "nan": draw(st.sampled_from(NANS)),
        "neg": draw(st.sampled_from([0, 0, 2])), "dry": draw(st.sampled_from([0, 0, 0, 1, 2])), "edits": [],
    }


def build(rec):
    kind = rec["nan"]
    v = gen.build(dict(rec, nan="none" if kind in ("all", "most", "scatter") else kind))
    rng = np.random.Generator(np.random.PCG64(rec["seed"] + 5))
    if rec["dry"]:  # a calendar step, or a year, without rain
        v[rec["seed"] % rec["per"]:: rec["per"]] *= 0.0
        if rec["dry"] == 2:
            v[: rec["per"]] *= 0.0
    if kind == "all":
        v[:] = np.nan
    elif kind == "most":
        v[rng.random(v.size) < 0.9] = np.nan
    elif kind == "scatter":
        v[rng.random(v.size) < 0.3] = np.nan
    return v


def run(case, worker):
    per = case["rec"]["per"]
    values = build(case["rec"])
    n, scale, first, cal = values.size, case["scale"], case["first"], case["cal"]
    period = MONTHLY if per == 12 else DAILY
    dist = GAMMA if case["dist"] == "gamma" else PEARSON
    arg = values
    if case["masked"]:
        m = np.isnan(values)
        arg = np.ma.MaskedArray(np.where(m, -9999.0, values), mask=m)
    if case["two"]:
        arg = arg.reshape(-1, per)
    out = {case["index"], case["dist"] if case["index"] != "pnp" else "pnp"}
    if case["index"] == "pnp":
        window = gen.effective_window(first, n, per, cal)
        if case["two"] or (window[1] - window[0] + 1) * per > n:
            return {"outside the domain"}
        got = worker.call("indices.percentage_of_normal", arg, scale, first, window[0], window[1], period)
        series = values
    elif case["index"] == "spei":
        pet = c03.build_pet(case["pet"], n, per)
        got = worker.call("indices.spei", arg, pet, scale, dist, period, first, cal[0], cal[1])
        series = ref.clip_negatives(values) - pet + 1000.0
    else:
        got = worker.call("indices.spi", arg, scale, dist, first, cal[0], cal[1], period)
        series = ref.clip_negatives(values)
    sums = ref.sliding_sums(series, scale)
    complete = ~np.isnan(sums)
    fitted = np.zeros(n, bool)
    if case["index"] != "pnp":
        z, ignore, info = ref.standardise(series, scale, case["dist"], first, gen.effective_window(first, n, per, cal), per)
        if info["reject"]:
            if is_error(got):
                return {"no spread, refused"}
            out.add("no spread, accepted")
        else:
            fitted = np.isfinite(z) & ~ignore
    got = need_array(got, case["index"])
    check(got.size == n, "the result does not have the input's length", got=got.shape, n=n)
    if np.isnan(values).all():
        check(np.isnan(plain(got)).all(), "an all-missing record got index values")
        return out | {"all missing", "nontrivial"}
    check(got.ndim == 1, "the result is not one-dimensional", got=got.shape)
    got = plain(got)
    check(not np.isinf(got).any(), "infinite index value")
    present = ~np.isnan(got)
    bad = present & ~complete
    check(not bad.any(), "value present although the window is incomplete", first=np.nonzero(bad)[0][:3])
    if case["index"] != "pnp":
        check((np.abs(got[present]) <= 3.09).all(), "index outside [-3.09, 3.09]", worst=np.abs(got[present]).max(initial=0))
        bad = fitted & ~present
        check(not bad.any(), "value missing although the window is complete and the step fitted", first=np.nonzero(bad)[0][:3])
    if (present.any() and not present.all()) or (scale > 1 and complete.any()):
        out.add("nontrivial")
    if scale > n:
        out.add("scale beyond record")
    if n < per:
        out.add("less than a year")
    return out


@test("C04", "monthly", case(12), quick=7000)
def monthly(case, worker):
    """Invariants of monthly SPI, SPEI and percent of normal."""
    return run(case, worker)


@test("C04", "daily", case(366), quick=320)
def daily(case, worker):
    """Invariants of daily SPI, SPEI and percent of normal."""
    return run(case, worker)
