"""C08 accumulation is the exact sliding sum."""
import math

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from client import DAILY, MONTHLY
from codec import Arr
from harness import check, fail, need_array, plain, same, test

RULE = (
    "A case is a series of any length from 1 (small explicit values, or a generated record), with "
    "missing values and negatives anywhere, a scale from 1 to beyond the length, a memory layout and, "
    "for scale_values, a periodicity and 1-D or 2-D shape. Non-trivial: scale above 1 with some "
    "complete window, or (scale_values) more than one year."
)
ASSUMPTIONS = ["floating-point summation order may differ (1e-9 of the window's absolute sum)"]

small = st.lists(
    st.one_of(st.none(), st.just(0.0), st.integers(-5, 40).map(float), st.floats(-1e3, 1e6, allow_nan=False, width=32)),
    min_size=1, max_size=40,
)


@st.composite
def series(draw, negatives=True):
    if draw(st.booleans()):
        return {"values": draw(small)}
    return {"rec": draw(gen.record(per=draw(st.sampled_from([12, 12, 12, 366])), min_years=1, max_years=6, units=gen.UNITS))}


def values_of(s):
    if "values" in s:
        return np.array([np.nan if x is None else x for x in s["values"]], dtype=float)
    return gen.build(s["rec"])


def reference(v, scale):
    """Exactly rounded sums, and the allowance for summation order."""
    out, slack = np.full(v.size, np.nan), np.zeros(v.size)
    for i in range(scale - 1, v.size):
        w = v[i - scale + 1: i + 1].tolist()
        if not any(math.isnan(x) for x in w):
            out[i] = math.fsum(w)
            slack[i] = 1e-9 * math.fsum(abs(x) for x in w)
    return out, slack


@st.composite
def case(draw):
    s = draw(series())
    n = values_of(s).size
    scale = draw(st.sampled_from([1, 2, 3, 6, 12, 30, n, n + 1, 2 * n + 3, max(1, n - 1), 60, 90, 180, 365, 366]) | st.integers(1, 40) | st.integers(1, 400))
    return {"series": s, "scale": scale, "layout": draw(st.sampled_from(["C", "C", "strided", "reversed"])),
            "period": draw(st.sampled_from([12, 366])), "two": draw(st.booleans()), "dtype": draw(st.sampled_from(["f8", "f8", "f8", "i8"]))}


def argument(case):
    v = values_of(case["series"])
    if case["dtype"] == "i8" and np.isfinite(v).all():
        v = np.round(v)
        return v, v.astype(np.int64)
    return v, v


@test("C08", "sum_to_scale", case(), quick=5000)
def sum_to_scale(case, worker):
    """compute.sum_to_scale against exactly rounded window sums."""
    v, arg = argument(case)
    scale = case["scale"]
    expected, slack = reference(v, scale)
    got = need_array(worker.call("compute.sum_to_scale", Arr(arg, case["layout"]), scale), "sum_to_scale", (v.size,))
    same(got, expected, "sliding sum over %d" % scale, rtol=1e-9, atol=slack)
    out = set()
    if scale > 1 and np.isfinite(expected).any():
        out.add("nontrivial")
    if scale == 1:
        check(np.array_equal(plain(got), v, equal_nan=True), "a scale of 1 changes values")
        out.add("scale 1")
    if scale > v.size:
        out.add("scale beyond length")
    if np.isnan(v).any() and not np.isnan(v).all():
        out.add("missing values")
    if ((expected == 0) & (slack == 0)).any():
        out.add("zero sums")
    return out


@test("C08", "scale_values", case(), quick=4000)
def scale_values(case, worker):
    """compute.scale_values against the year layout of the sums of non-negative values."""
    v, arg = argument(case)
    scale, per = case["scale"], case["period"]
    expected, slack = reference(ref.clip_negatives(v), scale)
    table = ref.by_year(expected, per)
    slack = np.nan_to_num(ref.by_year(slack, per))
    if case["two"] and v.size % per == 0:
        arg = arg.reshape(-1, per)
    got = worker.call("compute.scale_values", Arr(arg, case["layout"]), scale, MONTHLY if per == 12 else DAILY)
    if np.isnan(v).all():
        got = need_array(got, "scale_values")
        check(np.isnan(plain(got)).all(), "sums of missing values")
        return {"all missing"}
    got = need_array(got, "scale_values", table.shape)
    same(got, table, "scaled values (scale %d)" % scale, rtol=1e-9, atol=slack)
    out = set()
    if table.shape[0] > 1 and np.isfinite(table).any():
        out.add("nontrivial")
    if v.size % per:
        out.add("padded year")
    if (v < 0).any():
        out.add("negatives")
    return out


@test("C08", "inner_pattern", st.tuples(gen.record(per=12, min_years=2, max_years=8), gen.scales_monthly, st.integers(0, 2**32 - 1)), quick=1500)
def inner_pattern(case, worker):
    """A single value changed by d changes exactly the sums of the windows holding it, by d."""
    rec, scale, seed = case
    v = gen.build(dict(rec, nan="none", climate=rec["climate"] if rec["climate"] != "wide" else "gamma"))
    rng = np.random.Generator(np.random.PCG64(seed))
    i, d = int(rng.integers(0, v.size)), float(rng.integers(1, 200))
    w = v.copy()
    w[i] += d
    a, b = (need_array(worker.call("compute.sum_to_scale", x, scale), "sum_to_scale", (v.size,)) for x in (v, w))
    delta = np.zeros(v.size)
    delta[i: i + scale] = d
    delta[: min(scale - 1, v.size)] = np.nan
    same(b - a, delta, "effect of one value on the sliding sums", rtol=0, atol=1e-9 * (np.abs(v).max() + d) * scale)
    return {"nontrivial"} if scale > 1 and scale <= v.size else set()
