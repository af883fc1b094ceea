"""C12 precipitation concentration index."""
import numpy as np
from hypothesis import strategies as st

import ref
from codec import Arr
from harness import check, fail, is_error, need_array, plain, same, test

RULE = (
    "A case is a generated year of 365 or 366 daily rainfalls (even, seasonal, single-month, few wet days, "
    "explicit single days incl. month ends), a layout, and for the relations a unit factor or a move of "
    "rain within a month; or a series that must be rejected. Non-trivial: rain in at least two months, or a "
    "rejection was due."
)
ASSUMPTIONS = ["a year without any rain has no concentration (0/0) and is not compared", "relative tolerance 1e-9"]


@st.composite
def case(draw):
    n = draw(st.sampled_from([365, 366]))
    return {
        "n": n,
        "kind": draw(st.sampled_from(["gamma", "even", "seasonal", "sparse", "days", "days", "month", "equal months"])),
        "seed": draw(st.integers(0, 2**32 - 1)),
        "days": draw(st.lists(st.tuples(st.integers(0, n - 1) | st.sampled_from([0, 30, 31, 58, 59, 60, n - 1, n - 31, n - 32]),
                                        st.sampled_from([1.0, 2.5, 40.0, 0.1])).map(list), min_size=1, max_size=6)),
        "layout": draw(st.sampled_from(["C", "C", "strided", "reversed"])),
    }


def months(n):
    return np.repeat(np.arange(12), ref.MONTH_DAYS[n == 366])


def build(case):
    rng = np.random.Generator(np.random.PCG64(case["seed"]))
    n, kind = case["n"], case["kind"]
    if kind == "gamma":
        v = rng.gamma(0.4, 12.0, n)
    elif kind == "even":
        v = np.full(n, 2.0)
    elif kind == "seasonal":
        v = rng.gamma(0.5, 10, n) * (1 + np.sin(2 * np.pi * np.arange(n) / n))
    elif kind == "sparse":
        v = np.where(rng.random(n) < 0.03, rng.gamma(1, 20, n), 0.0)
    elif kind == "month":
        v = np.where(months(n) == case["seed"] % 12, rng.gamma(1, 20, n), 0.0)
    elif kind == "equal months":
        v = 30.0 / np.array(ref.MONTH_DAYS[n == 366], dtype=float)[months(n)]
    else:
        v = np.zeros(n)
    if kind in ("days", "gamma", "sparse"):
        for i, x in case["days"]:
            v[i] += x
    return v


def reference(v):
    m = np.bincount(months(v.size), weights=v, minlength=12)
    return 100.0 * (m**2).sum() / m.sum() ** 2, m


def pci(worker, case, v):
    got = need_array(worker.call("indices.pci", Arr(v, case["layout"])), "PCI")
    check(got.size == 1, "PCI is not a single value", got=got.shape)
    return float(got.ravel()[0])


@test("C12", "definition", case(), quick=4000)
def definition(case, worker):
    """PCI against the definition over true calendar months, and its bounds."""
    v = build(case)
    if not v.sum() > 0:
        return {"no rain"}
    e, m = reference(v)
    got = pci(worker, case, v)
    check(abs(got - e) <= 1e-9 * e, "PCI differs from its definition", got=got, expected=e)
    check(100.0 / 12 - 1e-9 <= got <= 100.0 + 1e-9, "PCI outside [100/12, 100]", got=got)
    return {"nontrivial", "n %d" % v.size} if (m > 0).sum() >= 2 else {"single month"}


@test("C12", "relations", st.tuples(case(), st.floats(0.001, 1000.0), st.integers(0, 2**32 - 1)), quick=2000)
def relations(case, worker):
    """Unit scaling and moving rain between days of one month change nothing."""
    case, factor, seed = case
    v = build(case)
    if not v.sum() > 0:
        return {"no rain"}
    rng = np.random.Generator(np.random.PCG64(seed))
    w = v.copy()
    for k in range(12):
        i = np.nonzero(months(v.size) == k)[0]
        w[i] = w[rng.permutation(i)]
        j = rng.choice(i, 2, replace=False)
        w[j[0]], w[j[1]] = 0.0, w[j[0]] + w[j[1]]
    a, b, c = pci(worker, case, v), pci(worker, case, v * factor), pci(worker, case, w)
    check(abs(a - b) <= 1e-9 * a, "PCI changes with the unit", a=a, b=b, factor=factor)
    check(abs(a - c) <= 1e-9 * a, "PCI changes when rain moves within months", a=a, b=c)
    return {"nontrivial"} if (reference(v)[1] > 0).sum() >= 2 else set()


@test("C12", "rejections", st.tuples(case(), st.sampled_from(["length", "short", "missing", "all"]), st.integers(1, 800), st.sampled_from([[0], [364], [365], [58], [59], [60]]) | st.lists(st.integers(0, 364), min_size=1, max_size=8)), quick=800)
def rejections(case, worker):
    """Other lengths and partly missing years are refused; an all-missing year comes back."""
    case, what, length, holes = case
    v = build(case)
    if what == "length":
        if length in (365, 366):
            return set()
        v = np.resize(v, length) + 0.5
    elif what == "short":
        v = v[: -1 - (case["n"] == 366)]
    elif what == "missing":
        v[[min(h, v.size - 1) for h in holes]] = np.nan
    else:
        v[:] = np.nan
        got = need_array(worker.call("indices.pci", v), "PCI of an all-missing year", (v.size,))
        check(np.isnan(plain(got)).all(), "PCI of an all-missing year is not missing")
        return {"nontrivial", what}
    got = worker.call("indices.pci", v)
    check(is_error(got, "ValueError"), "%s (%d values) was not rejected with ValueError" % (what, v.size), got=got)
    return {"nontrivial", what}
