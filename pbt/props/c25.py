"""C25 calendar, reshape and statistics helpers satisfy their definitions."""
import datetime
import math

import numpy as np
from hypothesis import strategies as st

from codec import Arr
from harness import check, fail, is_error, need_array, need_value, plain, same, test

RULE = (
    "A case is a generated argument set of one helper, compared with the definition computed independently "
    "(datetime ordinals, explicit loops). Non-trivial: at least two steps, values or coordinates are involved."
)
ASSUMPTIONS = [
    "missing values are not passed to the sign comparison; validity of masked arrays is decided on their unmasked entries",
    "years 1 to 9999, the range of Python dates",
]


@st.composite
def days_case(draw):
    units = draw(st.sampled_from([1800, 1800, 1900, 1970, 2000, 1, 9000]) | st.integers(1, 9000))
    return {
        "units": units,
        "year": draw(st.sampled_from([1800, 1895, 1899, 1900, 1999, 2000, 2001, 2099]) | st.integers(1, 9900)),
        "month": draw(st.integers(1, 12)),
        "total": draw(st.integers(0, 40) | st.integers(0, 900)),
        "given": draw(st.sampled_from(["all", "all", "month", "units", "none"])),
    }


@test("C25", "days", days_case(), quick=2500)
def days(case, worker):
    """Month axes: Gregorian days from 1 January of the unit year to the first of each month."""
    units, month = case["units"], case["month"]
    kw = {"initial_month": month, "units_start_year": units}
    if case["given"] in ("month", "none"):
        kw.pop("units_start_year")
        units = 1800
    if case["given"] in ("units", "none"):
        kw.pop("initial_month")
        month = 1
    total = min(case["total"], (9999 - case["year"]) * 12)
    got = need_array(worker.call("utils.compute_days", case["year"], total, **kw), "compute_days", (total,))
    base = datetime.date(units, 1, 1).toordinal()
    y, m = case["year"], month
    for i in range(total):
        e = datetime.date(y, m, 1).toordinal() - base
        check(got[i] == e, "wrong day number", step=i, got=got[i], expected=e, year=y, month=m)
        m += 1
        if m == 13:
            y, m = y + 1, 1
    out = {case["given"]}
    if total >= 2:
        out.add("nontrivial")
    if case["year"] < units:
        out.add("before the unit year")
    return out


@st.composite
def array_case(draw, max_n=400):
    return {
        "n": draw(st.integers(0, 40) | st.integers(0, max_n)),
        "seed": draw(st.integers(0, 2**32 - 1)),
        "kind": draw(st.sampled_from(["float", "float", "int", "small", "nan", "inf", "big"])),
        "nan": draw(st.sampled_from([0.0, 0.0, 0.1, 0.6, 1.0])),
        "mask": draw(st.sampled_from([None, None, None, 0.0, 0.3, 1.0])),
        "rows": draw(st.sampled_from([1, 1, 1, 2, 3])),
    }


def values(case, salt=0):
    rng = np.random.Generator(np.random.PCG64([case["seed"], salt]))
    n = case["n"] // case["rows"] * case["rows"]
    kind = case["kind"]
    if kind == "int":
        return rng.integers(-3, 4, n)
    if kind == "small":
        v = rng.choice([-1.0, -0.0, 0.0, 1e-300, 1.0, 2.5], n)
    elif kind == "big":
        v = rng.normal(0, 1, n) * 1e6 + 1e7
    else:
        v = rng.normal(0, 10, n)
        v[rng.random(n) < 0.2] = 0.0
    if kind == "inf" and n:
        v[rng.integers(0, n)] = math.inf
    v[rng.random(n) < case["nan"]] = math.nan
    return v


def masked(case, v):
    if case["mask"] is None:
        return v, np.zeros(v.shape, bool)
    rng = np.random.Generator(np.random.PCG64([case["seed"], 99]))
    m = rng.random(v.shape) < case["mask"]
    return np.ma.MaskedArray(v, mask=m), m


def shaped(case, v):
    return v.reshape(case["rows"], -1) if case["rows"] > 1 else v


@test("C25", "reshape", st.tuples(array_case(1500), st.sampled_from([12, 12, 12, 366, 366, 7, 1, 5])), quick=2500)
def reshape(case, worker):
    """Year layout keeps every value in order and pads only the final year with missing values."""
    case, width = case
    v = values(dict(case, rows=1))
    x, m = masked(dict(case, rows=1), v)
    got = need_array(worker.call("utils.reshape_to_2d", x, width), "reshape_to_2d")
    rows = -(-v.size // width)
    check(got.shape == (rows, width), "wrong shape", got=got.shape, expected=(rows, width))
    flat = plain(got).ravel()
    e = np.where(m, np.nan, v.astype(float))
    same(flat[: v.size], e, "reshaped values", rtol=0, atol=0)
    check(np.isnan(flat[v.size:]).all(), "padding is not missing", padding=flat[v.size:])
    again = need_array(worker.call("utils.reshape_to_2d", got, width), "reshape_to_2d of its result", got.shape)
    same(again, got, "values reshaped twice", rtol=0, atol=0)
    out = {case["kind"]}
    if v.size >= 2:
        out.add("nontrivial")
    if v.size % width:
        out.add("padded")
    if m.any():
        out.add("masked")
    # divisions
    d = np.arange(rows * 12, dtype=float).reshape(rows, 12)
    got = need_array(worker.call("utils.reshape_to_divs_years_months", d), "reshape_to_divs_years_months", (rows, 1, 12))
    same(got.ravel(), d.ravel(), "reshape_to_divs_years_months", rtol=0, atol=0)
    return out


@test("C25", "counts", array_case(), quick=2000)
def counts(case, worker):
    """Counts of zeros and of values that are not missing; validity."""
    v = values(case)
    r = need_value(worker.call("utils.count_zeros_and_non_missings", shaped(case, v)), "count_zeros_and_non_missings")
    zeros = sum(1 for x in v.tolist() if x == 0)
    present = sum(1 for x in v.tolist() if x == x)
    check(tuple(int(x) for x in r) == (zeros, present), "wrong counts", got=r, expected=(zeros, present))
    rl = need_value(worker.call("utils.count_zeros_and_non_missings", v.tolist()), "count_zeros_and_non_missings of a list")
    check(tuple(int(x) for x in rl) == (zeros, present), "wrong counts for a list", got=rl, expected=(zeros, present))
    x, m = masked(case, v)
    valid = need_value(worker.call("utils.is_data_valid", shaped(case, x)), "is_data_valid")
    if case["mask"] is None:
        check(bool(valid) == (present > 0), "wrong validity of an array", got=valid, present=present)
    elif not np.isnan(v.astype(float)).any():
        check(bool(valid) == bool((~m).any()), "wrong validity of a masked array", got=valid)
    for other in ([1.0, 2.0], 3.0, None, "x"):
        check(need_value(worker.call("utils.is_data_valid", other), "is_data_valid") is False, "not an array, yet valid", got=other)
    return {"nontrivial", case["kind"]} if v.size >= 2 else {case["kind"]}


@test("C25", "rmse", array_case(), quick=2000)
def rmse(case, worker):
    """Root mean square error and sign changes."""
    case = dict(case, nan=0.0, kind="float" if case["kind"] == "inf" else case["kind"])
    a, b = values(case), values(case, 1)
    if case["seed"] % 3 == 0 and a.size:
        b[: a.size // 2] = a[: a.size // 2]
    r = need_array(worker.call("utils.sign_change", shaped(case, a), shaped(case, b)), "sign_change", shaped(case, a).shape)
    check(r.dtype.kind == "b", "sign changes are not booleans", dtype=str(r.dtype))
    sign = lambda x: (x > 0) - (x < 0)
    e = np.array([sign(x) != sign(y) for x, y in zip(a.tolist(), b.tolist())], bool)
    check(np.array_equal(np.ravel(r), e), "wrong sign changes", got=np.ravel(r), expected=e, a=a, b=b)
    if a.size != 3:
        bad = worker.call("utils.sign_change", a, np.ones(3))
        check(is_error(bad, "ValueError"), "sign_change accepted arrays of different sizes", got=bad)
    if not a.size:
        return set()
    x, m = masked(case, a.astype(float))
    if m.all():
        return set()
    got = need_value(worker.call("utils.rmse", shaped(case, x), shaped(case, b)), "rmse")
    d = [(float(p) - float(q)) ** 2 for p, q, hidden in zip(a, b, m) if not hidden]
    e = math.sqrt(math.fsum(d) / len(d))
    check(abs(float(got) - e) <= 1e-9 * (1.0 + e), "wrong root mean square error", got=float(got), expected=e)
    a = a.astype(float)
    a[case["seed"] % a.size] = np.nan
    got = need_value(worker.call("utils.rmse", a, b), "rmse")
    check(np.isnan(float(got)), "rmse of missing values is a number", got=got)
    return {"nontrivial", case["kind"]} if b.size >= 2 else set()


@st.composite
def axis_case(draw):
    return {
        "n": draw(st.integers(1, 40)),
        "start": draw(st.sampled_from([-90.0, 0.0, 23.4375, 180.0]) | st.floats(-180, 180).map(lambda x: round(x, 4))),
        "step": draw(st.sampled_from([0.04167, 0.25, 0.5, 1.0, 2.5, 0.001, 1e-7])),
        "sign": draw(st.sampled_from([1, -1])),
        "irregular": draw(st.sampled_from([0, 0, 1, 2])),
        "dtype": draw(st.sampled_from(["f8", "f8", "f4", "i8"])),
        "seed": draw(st.integers(0, 2**32 - 1)),
    }


@test("C25", "tolerance", axis_case(), quick=2000)
def tolerance(case, worker):
    """The coordinate tolerance: positive, a tenth of the smallest spacing."""
    rng = np.random.Generator(np.random.PCG64(case["seed"]))
    steps = np.full(case["n"] - 1, case["step"])
    if case["irregular"] == 1:
        steps *= rng.uniform(0.5, 3.0, steps.size)
    x = case["start"] + case["sign"] * np.concatenate([[0.0], np.cumsum(steps)])
    if case["irregular"] == 2:
        rng.shuffle(x)
    if case["dtype"] == "i8":
        x = np.round(x / case["step"])
    x = x.astype(case["dtype"])
    got = float(need_value(worker.call("utils.get_tolerance", x), "get_tolerance"))
    check(got > 0, "tolerance is not positive", got=got)
    if x.size == 1:
        check(got <= 1e-6, "tolerance of a single value is not small", got=got)
        return {"single"}
    # consecutive values, as the library defines the spacing along the axis
    gap = min(abs(float(b) - float(a)) for a, b in zip(x, x[1:]))
    floor = 1e-6 if case["dtype"] == "f4" else 1e-15
    e = max(gap / 10.0, floor)
    check(abs(got - e) <= 1e-5 * e + (1e-6 if case["dtype"] == "f4" else 1e-12), "wrong tolerance", got=got, expected=e)
    return {"nontrivial", case["dtype"]}


@st.composite
def length_case(draw):
    return {"year": draw(st.sampled_from([1896, 1899, 1900, 1999, 2000, 2003, 2004]) | st.integers(1, 3000)), "years": draw(st.integers(0, 30)), "extra": draw(st.sampled_from([0, 0, 59, 60, 61, 364]) | st.integers(0, 364))}


@test("C25", "length366", length_case(), quick=1500)
def length366(case, worker):
    """Length of a daily record on 366-day years: 366 for each whole year, remaining days as they are."""
    import calendar

    n = sum(366 if calendar.isleap(y) else 365 for y in range(case["year"], case["year"] + case["years"]))
    got = need_value(worker.call("utils.gregorian_length_as_366day", n + case["extra"], case["year"]), "gregorian_length_as_366day")
    e = 366 * case["years"] + case["extra"]
    check(int(got) == e, "wrong 366-day length", got=got, expected=e)
    return {"nontrivial"} if case["years"] >= 2 else set()
