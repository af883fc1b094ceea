"""C13 366-day and Gregorian calendars convert losslessly."""
import calendar

import numpy as np
from hypothesis import strategies as st

import ref
from codec import Arr
from harness import check, is_error, need_array, need_value, same, test

RULE = (
    "A case is a start year (1600-2400, century and leap years favoured), a number of years and a daily "
    "record on the Gregorian or 366-day calendar with distinct values and missing days (also around the "
    "end of February), possibly with a partial final non-leap year; or an input that must be rejected. "
    "Non-trivial: the record has at least one non-leap year."
)
ASSUMPTIONS = ["a partial final year holds at least January and February of a non-leap year, as the conversion requires"]

starts = st.sampled_from([1895, 1896, 1899, 1900, 1901, 1903, 1904, 1996, 1999, 2000, 2001, 2099, 2100, 2004, 2003]) | st.integers(1600, 2400)


@st.composite
def case(draw, max_years=7):
    years = draw(st.integers(1, max_years))
    return {
        "first": draw(starts),
        "years": years,
        "seed": draw(st.integers(0, 2**32 - 1)),
        "holes": draw(st.lists(st.tuples(st.integers(0, years - 1), st.sampled_from([0, 57, 58, 59, 60, 61, 364]) | st.integers(0, 364)).map(list), max_size=5)),
        "layout": draw(st.sampled_from(["C", "C", "strided", "reversed"])),
    }


def days(first, years):
    return [366 if calendar.isleap(y) else 365 for y in range(first, first + years)]


def record(case, lengths):
    rng = np.random.Generator(np.random.PCG64(case["seed"]))
    v = np.round(rng.gamma(0.8, 10.0, sum(lengths)), 3)
    v[rng.random(v.size) < 0.3] = 0.0
    start = np.concatenate([[0], np.cumsum(lengths)])
    for y, d in case["holes"]:
        if start[y] + d < v.size:
            v[start[y] + d] = np.nan
    return v


def labels(case, lengths):
    out = {"nontrivial"} if 365 in lengths else set()
    if 366 in lengths:
        out.add("leap year")
    if case["holes"]:
        out.add("missing days")
    return out


@test("C13", "to_366", case(), quick=3500)
def to_366(case, worker):
    """Gregorian whole years to 366-day years date by date, and back unchanged."""
    lengths = days(case["first"], case["years"])
    v = record(case, lengths)
    got = need_array(worker.call("utils.transform_to_366day", Arr(v, case["layout"]), case["first"], case["years"]), "transform_to_366day", (366 * case["years"],))
    same(got, ref.to_366(v, case["first"], case["years"]), "366-day record", rtol=1e-12, atol=1e-12)
    back = need_array(worker.call("utils.transform_to_gregorian", got, case["first"]), "transform_to_gregorian", (v.size,))
    check(np.array_equal(back, v, equal_nan=True), "the round trip changes the record")
    n = need_value(worker.call("utils.gregorian_length_as_366day", int(v.size), case["first"]), "gregorian_length_as_366day")
    check(n == 366 * case["years"], "wrong 366-day length", got=n, expected=366 * case["years"])
    return labels(case, lengths)


@test("C13", "to_gregorian", case(), quick=2500)
def to_gregorian(case, worker):
    """366-day years to Gregorian: exactly the 29 Februaries of non-leap years are dropped."""
    v = record(case, [366] * case["years"])
    e = ref.to_gregorian(v, case["first"])
    got = need_array(worker.call("utils.transform_to_gregorian", Arr(v, case["layout"]), case["first"]), "transform_to_gregorian", e.shape)
    check(np.array_equal(got, e, equal_nan=True), "wrong Gregorian record")
    return labels(case, days(case["first"], case["years"]))


@test("C13", "partial", st.tuples(case(5), st.integers(60, 364)), quick=2000)
def partial(case, worker):
    """A partial final non-leap year is padded with missing values."""
    case, last = case
    lengths = days(case["first"], case["years"])
    if lengths[-1] == 366:
        case = dict(case, first=case["first"] + 1)
        lengths = days(case["first"], case["years"])
    if lengths[-1] == 366:
        return set()
    lengths[-1] = last
    v = record(case, lengths)
    got = need_array(worker.call("utils.transform_to_366day", Arr(v, case["layout"]), case["first"], case["years"]), "transform_to_366day", (366 * case["years"],))
    same(got, ref.to_366(v, case["first"], case["years"]), "366-day record of a partial year", rtol=1e-12, atol=1e-12)
    return {"nontrivial"}


@test("C13", "length", st.tuples(starts, st.integers(0, 9), st.integers(0, 365) | st.sampled_from([1, 58, 59, 60, 364, 365])), quick=1500)
def length(case, worker):
    """The 366-day length of whole years and days of another year (29 February of that year counted or not)."""
    first, years, more = case
    lengths = days(first, years + 1)
    more = min(more, lengths[-1] - 1)
    n = need_value(worker.call("utils.gregorian_length_as_366day", sum(lengths[:-1]) + more, first), "gregorian_length_as_366day")
    extra = 1 if lengths[-1] == 365 and more >= 59 else 0
    check(n in (366 * years + more, 366 * years + more + extra), "wrong 366-day length", got=n, expected=366 * years + more)
    return {"nontrivial", "leap" if lengths[-1] == 366 else "not leap"} if years and more else set()


@test("C13", "rejections", st.tuples(case(3), st.sampled_from(["2-D", "2-D gregorian", "length", "partial leap"]), st.integers(1, 365) | st.just(365)), quick=800)
def rejections(case, worker):
    """Inputs of a wrong shape or length are refused with ValueError."""
    case, what, d = case
    v = record(dict(case, holes=[]), [366] * case["years"])
    if what == "2-D":
        got = worker.call("utils.transform_to_366day", v.reshape(-1, 366), case["first"], case["years"])
    elif what == "2-D gregorian":
        got = worker.call("utils.transform_to_gregorian", v.reshape(-1, 366), case["first"])
    elif what == "length":
        got = worker.call("utils.transform_to_gregorian", v[:-d], case["first"])
    else:
        first = case["first"] - case["first"] % 4  # leap, also 400-year rule
        while not calendar.isleap(first):
            first += 4
        before = case["seed"] % 3
        keep = sum(days(first - before, before)) + 366 - d
        got = worker.call("utils.transform_to_366day", np.resize(v, keep), first - before, before + 1)
    check(is_error(got, "ValueError"), "%s input was not rejected with ValueError" % what, got=got)
    return {"nontrivial", what}
