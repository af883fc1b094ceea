"""C01 gamma SPI equals the documented gamma method."""
import numpy as np
from hypothesis import strategies as st

import gen
import ref
from client import DAILY, GAMMA, MONTHLY
from codec import Arr
from harness import check, need_array, need_value, same, test

RULE = (
    "A case is a generated precipitation record (12 synthetic climates from hyper-arid to tied, "
    "tiny and huge values; missing values single, by column, year, head or tail; negatives; "
    "hand edits; any partial final year), a start year, scale and calibration period inside, "
    "equal to or outside the record. Non-trivial: at least 12 index values are finite and "
    "strictly inside (-3.09, 3.09)."
)
ASSUMPTIONS = [
    "scipy.special.gammainc/ndtri of the generator's interpreter are correct to 1e-7 in the index",
    "columns whose fitted values have no spread (log(mean) - mean(log) <= 1e-7) are not compared",
]


@st.composite
def case(draw, per):
    if per == 12:
        rec = draw(gen.record(per=12, min_years=1, max_years=35, units=gen.UNITS))
        scale = draw(gen.scales_monthly)
    else:
        rec = draw(gen.record(per=366, min_years=2, max_years=7, units=gen.UNITS))
        scale = draw(gen.scales_daily)
    first = draw(gen.start_years)
    return {
        "rec": rec,
        "scale": scale,
        "first": first,
        "cal": draw(gen.window(first, rec["n"], per)),
        "shape": draw(st.sampled_from([1, 1, 2])) if rec["n"] % per == 0 else 1,
    }


def labels_of(z, values, scale, extra=()):
    out = set(extra)
    finite = np.isfinite(z)
    inside = finite & (np.abs(z) < 3.09)
    if inside.sum() >= 12:
        out.add("nontrivial")
    if (finite & ~inside).any():
        out.add("clipped")
    if np.isnan(values).any():
        out.add("missing values")
    if (values == 0).any():
        out.add("zeros")
    if (values < 0).any():
        out.add("negatives")
    if values.size % 12:
        out.add("partial year")
    if scale > values.size:
        out.add("scale beyond record")
    return out


def spi_case(case, worker, per):
    values = gen.build(case["rec"])
    first, cal, scale = case["first"], case["cal"], case["scale"]
    arg = values.reshape(-1, per) if case["shape"] == 2 else values
    got = worker.call("indices.spi", arg, scale, GAMMA, first, cal[0], cal[1], MONTHLY if per == 12 else DAILY)
    got = need_array(got, "gamma SPI", (values.size,) if not np.isnan(values).all() else None)
    window = gen.effective_window(first, values.size, per, cal)
    z, ignore, info = ref.standardise(ref.clip_negatives(values), scale, "gamma", first, window, per)
    same(got.ravel(), z, "gamma SPI", rtol=0, atol=2e-6, ignore=ignore)
    extra = []
    if window != tuple(cal):
        extra.append("calibration outside record")
    elif window != gen.effective_window(first, values.size, per, [first - 1, first]):
        extra.append("calibration inside record")
    return labels_of(np.where(ignore, np.nan, z), values, scale, extra)


@test("C01", "spi_monthly", case(12), quick=8000)
def spi_monthly(case, worker):
    """Monthly gamma SPI against the reference computation."""
    return spi_case(case, worker, 12)


@test("C01", "spi_daily", case(366), quick=1000)
def spi_daily(case, worker):
    """Daily (366-day years) gamma SPI against the reference computation."""
    return spi_case(case, worker, 366)


@test("C01", "parameters", st.one_of(case(12), case(12), case(366)), quick=3000)
def parameters(case, worker):
    """compute.gamma_parameters of the scaled values against Thom's estimates."""
    per = case["rec"]["per"]
    values = gen.build(case["rec"])
    first, cal = case["first"], case["cal"]
    sums = ref.sliding_sums(ref.clip_negatives(values), case["scale"])
    table = ref.by_year(sums, per)
    arg = sums if case["shape"] == 1 else table
    period = MONTHLY if per == 12 else DAILY
    got = need_value(worker.call("compute.gamma_parameters", arg, first, cal[0], cal[1], period), "gamma_parameters")
    check(len(got) == 2, "gamma_parameters does not return alphas and betas")
    window = gen.effective_window(first, values.size, per, cal)
    alpha, beta, a = ref.gamma_fit(table, first, window)
    bad = ref.degenerate_gamma(a)
    with np.errstate(all="ignore"):
        slack = 1e-9 + 1e-13 / np.abs(a)
    for name, g, e in (("alpha", got[0], alpha), ("beta", got[1], beta)):
        g = need_array(g, "gamma " + name, (per,))
        same(g / e, np.where(np.isnan(e), np.nan, 1.0), "gamma " + name, rtol=0, atol=np.where(np.isnan(slack), 0, slack), ignore=bad)
    out = {"nontrivial"} if (~bad & np.isfinite(alpha)).sum() >= 3 else set()
    if np.isnan(alpha).any():
        out.add("column without values")
    return out
