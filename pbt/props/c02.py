"""C02 Pearson SPI equals the documented Pearson Type III method."""
import numpy as np
from hypothesis import strategies as st

import gen
import ref
from client import DAILY, MONTHLY, PEARSON
from harness import check, is_error, need_array, need_value, same, test

RULE = (
    "A case is a generated precipitation record (12 synthetic climates incl. hyper-arid, tied, tiny, "
    "negatively skewed; missing values by step, column, year, head, tail; negatives; hand edits; "
    "partial years), a start year, scale and calibration period inside, equal to or outside the "
    "record. Non-trivial: at least 12 index values are finite and strictly inside (-3.09, 3.09)."
)
ASSUMPTIONS = [
    "scipy.special.gammainc/gammaincc/ndtri of the generator's interpreter are correct to 1e-7 in the index",
    "records with a calendar step without spread in the calibration years are refused by the fit and not compared",
    "entries within rounding of a switch-over (finite end of the distribution, trace 0.0005) are not compared",
]
CLIMATES = gen.CLIMATES + ["negskew", "arid", "lumpy", "tiny"]


@st.composite
def case(draw, per, min_years=3, max_years=35, cal_min=6):
    if per == 12:
        rec = draw(gen.record(per=12, min_years=min_years, max_years=max_years, climates=CLIMATES))
        scale = draw(gen.scales_monthly)
    else:
        rec = draw(gen.record(per=366, min_years=5, max_years=8, climates=CLIMATES))
        scale = draw(gen.scales_daily)
    first = draw(gen.start_years)
    return {
        "rec": rec,
        "scale": scale,
        "first": first,
        "cal": draw(gen.window(first, rec["n"], per, min_len=draw(st.sampled_from([1, cal_min, cal_min])))),
        "shape": draw(st.sampled_from([1, 1, 2])) if rec["n"] % per == 0 else 1,
    }


def labels_of(z, values, info, window, cal):
    out = set()
    finite = np.isfinite(z)
    inside = finite & (np.abs(z) < 3.09)
    if inside.sum() >= 12:
        out.add("nontrivial")
    if (info["code"] == 1).any():
        out.add("step without fit")
    if (finite & ~inside).any():
        out.add("clipped")
    if (values == 0).any():
        out.add("zeros")
    if np.isnan(values).any():
        out.add("missing values")
    if window != tuple(cal):
        out.add("calibration outside record")
    return out


def spi_case(case, worker, per):
    values = gen.build(case["rec"])
    first, cal, scale = case["first"], case["cal"], case["scale"]
    window = gen.effective_window(first, values.size, per, cal)
    z, ignore, info = ref.standardise(ref.clip_negatives(values), scale, "pearson", first, window, per)
    arg = values.reshape(-1, per) if case["shape"] == 2 else values
    got = worker.call("indices.spi", arg, scale, PEARSON, first, cal[0], cal[1], MONTHLY if per == 12 else DAILY)
    if info["reject"]:
        return {"no spread, " + ("refused" if is_error(got) else "accepted")}
    got = need_array(got, "Pearson SPI", (values.size,) if not np.isnan(values).all() else None)
    same(got.ravel(), z, "Pearson SPI", rtol=0, atol=5e-6, ignore=ignore)
    return labels_of(np.where(ignore, np.nan, z), values, info, window, cal)


@test("C02", "spi_monthly", case(12), quick=3500)
def spi_monthly(case, worker):
    """Monthly Pearson SPI against the reference computation."""
    return spi_case(case, worker, 12)


@test("C02", "spi_daily", case(366), quick=200)
def spi_daily(case, worker):
    """Daily (366-day years) Pearson SPI against the reference computation."""
    return spi_case(case, worker, 366)


@test("C02", "parameters", st.one_of([case(12)] * 12 + [case(366)]), quick=2000)
def parameters(case, worker):
    """compute.pearson_parameters of the scaled values against the L-moment estimates."""
    per = case["rec"]["per"]
    values = gen.build(case["rec"])
    first, cal = case["first"], case["cal"]
    table = ref.by_year(ref.sliding_sums(ref.clip_negatives(values), case["scale"]), per)
    arg = table.ravel() if case["shape"] == 1 else table
    period = MONTHLY if per == 12 else DAILY
    got = worker.call("compute.pearson_parameters", arg, first, cal[0], cal[1], period)
    window = gen.effective_window(first, values.size, per, cal)
    p0, loc, scale, skew, code = ref.pearson_fit(table, first, window)
    if (code == 2).any():
        return {"no spread"}
    got = need_value(got, "pearson_parameters")
    check(len(got) == 4, "pearson_parameters does not return four arrays")
    bad = code >= 2
    unit = np.where(scale > 0, scale, 1.0)
    same(need_array(got[0], "prob_zero", (per,)), p0, "Pearson probability of zero", atol=1e-12, rtol=0, ignore=bad)
    same(need_array(got[1], "loc", (per,)) / unit, loc / unit, "Pearson loc/scale", ignore=bad)
    same(need_array(got[2], "scale", (per,)) / unit, scale / unit, "Pearson scale ratio", atol=1e-6, rtol=0, ignore=bad)
    same(need_array(got[3], "skew", (per,)), skew, "Pearson skew", atol=1e-6, rtol=1e-6, ignore=bad)
    out = {"nontrivial"} if (code == 0).sum() >= 3 else set()
    if (p0 > 0).any():
        out.add("positive probability of zero")
    return out
