"""C10 Thornthwaite PET."""
import numpy as np
from hypothesis import strategies as st

import gen
import ref
from codec import Arr
from harness import check, is_error, need_array, plain, same, test

RULE = (
    "A case is a generated monthly temperature record (tropical to polar seasonality, all-frozen, near "
    "zero, single missing months, years, head or tail; partial final years), latitude in [-90, 90] "
    "(poles, polar circles and equator included), start year (leap years, centuries) and 1-D or 2-D "
    "shape through indices.pet or eto.eto_thornthwaite; or an invalid latitude. Non-trivial: at least 12 "
    "positive PET values, or a rejection was due."
)
ASSUMPTIONS = [
    "records with a calendar month that is never present are outside the method (no climatology)",
    "reference in double precision, relative tolerance 1e-7",
]

latitudes = (
    st.sampled_from([-90.0, 90.0, 0.0, 66.5, -66.5, 66.6, 45.0, -23.4, 89.9, -89.9])
    | st.floats(-90, 90, allow_nan=False)
    | st.integers(-90, 90).map(float)
)


@st.composite
def case(draw, min_years=1):
    years = draw(st.integers(min_years, 20))
    extra = draw(st.sampled_from([0, 0, 0, 1, 6, 11]))
    n = years * 12 + extra
    return {
        "n": n,
        "mean": draw(st.sampled_from([-30.0, -5.0, 0.0, 3.0, 9.5, 15.0, 24.0, 33.0]) | st.floats(-35, 38)),
        "amp": draw(st.sampled_from([0.0, 2.0, 8.0, 18.0, 30.0])),
        "noise": draw(st.sampled_from([0.0, 0.5, 3.0])),
        "seed": draw(st.integers(0, 2**32 - 1)),
        "nan": draw(st.sampled_from(["none", "none", "none", "some", "trailing", "leading", "year", "gap"])),
        "edits": draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from([0.0, -0.0, -0.01, 0.01, 26.5, 45.0, -40.0])).map(list), max_size=3)),
        "lat": draw(latitudes),
        "first": draw(gen.start_years | st.sampled_from([1896, 1899, 1904, 2096, 1996])),
        "two": draw(st.booleans()),
        "api": draw(st.sampled_from(["indices.pet", "indices.pet", "eto.eto_thornthwaite"])),
        "latkind": draw(st.sampled_from(["float", "float", "float", "array"])),
        "layout": draw(st.sampled_from(["C", "C", "strided", "F"])),
    }


def build(case):
    rng = np.random.Generator(np.random.PCG64(case["seed"]))
    n = case["n"]
    t = case["mean"] + case["amp"] * np.sin(2 * np.pi * (np.arange(n) % 12 / 12.0 + rng.random())) + rng.normal(0, 1, n) * case["noise"]
    t = np.round(t, 2)
    t = gen.punch(t, case["nan"], 12, case["seed"])
    for i, x in case["edits"]:
        t[i] = x
    return t


def climatology(t):
    return not np.isnan(ref.by_year(t, 12)).all(axis=0).any()


def call(worker, case, t, lat=None, first=None):
    lat = case["lat"] if lat is None else lat
    arg = t.reshape(-1, 12) if case["two"] and t.size % 12 == 0 else t
    if case["latkind"] == "array" and case["api"] == "indices.pet":
        lat = np.full(3, lat)
    return worker.call(case["api"], Arr(arg, case["layout"] if arg.ndim == 2 or case["layout"] != "F" else "C"), lat, case["first"] if first is None else first)


@test("C10", "formula", case(), quick=5000)
def formula(case, worker):
    """PET against the reference formula; non-negative, zero at or below freezing, missing with the
    temperature, in the input's length."""
    t = build(case)
    if case["seed"] % 40 == 0:
        t[:] = np.nan
        got = need_array(worker.call("indices.pet", t, case["lat"], case["first"]), "PET")
        check(got.size == t.size and np.isnan(plain(got)).all(), "PET of an all-missing record is not all missing")
        return {"all missing"}
    if not climatology(t):
        return {"no climatology"}
    got = need_array(call(worker, case, t), "PET")
    check(got.size == t.size, "PET does not have the input's length", got=got.shape)
    got = got.ravel()
    e = ref.thornthwaite(t, case["lat"], case["first"])
    present = ~np.isnan(t)
    check((np.isnan(got) == ~present).all(), "PET is not missing exactly where the temperature is")
    check((got[present] >= 0).all() and np.isfinite(got[present]).all(), "PET negative or infinite")
    check((got[present & (t <= 0)] == 0).all(), "PET not zero at or below freezing")
    same(got, e, "Thornthwaite PET", rtol=1e-7, atol=1e-9)
    out = set()
    if (e[present] > 0).sum() >= 12:
        out.add("nontrivial")
    if (t[present] <= 0).any():
        out.add("frozen months")
    if present.any() and (t[present] <= 0).all():
        out.add("all frozen")
    if abs(case["lat"]) > 66.4:
        out.add("polar")
    if not present.all():
        out.add("missing")
    return out


@test("C10", "monotone", case(min_years=2), quick=1500)
def monotone(case, worker):
    """For one calendar month and year kind, a warmer month never has a lower PET."""
    t = build(case)
    if not climatology(t):
        return {"no climatology"}
    got = need_array(call(worker, case, t), "PET").ravel()
    years = case["first"] + np.arange(t.size) // 12
    leap = ((years % 4 == 0) & (years % 100 != 0)) | (years % 400 == 0)
    pairs = 0
    for k in range(12):
        for kind in (False, True):
            use = (np.arange(t.size) % 12 == k) & ~np.isnan(t) & (leap == kind)
            o = np.argsort(t[use], kind="stable")
            x, y = t[use][o], got[use][o]
            check((np.diff(y) >= -1e-9 * np.abs(y[1:])).all(), "a warmer month has a lower PET", month=k + 1, temps=x, pet=y)
            pairs += max(0, x.size - 1)
    return {"nontrivial"} if pairs >= 12 else set()


@test("C10", "latitude", st.tuples(case(), st.sampled_from([None, float("nan"), 90.0001, -90.0001, 91.0, 180.0, -1000.0, float("inf"), float("-inf")]) | st.floats(90.01, 1e6) | st.floats(-1e6, -90.01)), quick=600)
def latitude(case, worker):
    """Absent or impossible latitudes are refused with ValueError."""
    case, lat = case
    t = build(dict(case, nan="none"))
    t[0] = 10.0
    got = worker.call("indices.pet", t, lat, case["first"])
    check(is_error(got, "ValueError"), "latitude %r was not rejected with ValueError" % lat, got=got)
    return {"nontrivial"}


@test("C10", "short", st.tuples(st.integers(0, 11), latitudes, st.integers(0, 2**32 - 1), st.booleans()), quick=300)
def short(case, worker):
    """Records without every calendar month: PET has the input's length, is missing with the
    temperature and never negative."""
    n, lat, seed, holes = case
    rng = np.random.Generator(np.random.PCG64(seed))
    t = np.round(rng.normal(12.0, 9.0, n), 2)
    if holes:
        t[rng.random(n) < 0.3] = np.nan
    got = need_array(worker.call("indices.pet", t, lat, 2000), "PET", (n,))
    check(np.isnan(got[np.isnan(t)]).all(), "PET present where the temperature is missing", got=got)
    check(not (got < 0).any() and not np.isinf(got).any(), "PET negative or infinite", got=got)
    return {"nontrivial"} if n and not np.isnan(t).all() else set()
