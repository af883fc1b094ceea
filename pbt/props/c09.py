"""C09 percent of normal."""
import numpy as np
from hypothesis import strategies as st

import gen
import ref
from client import DAILY, MONTHLY
from codec import Arr
from harness import check, is_error, need_array, same, test

RULE = (
    "A case is a generated record (climates incl. dry calendar steps, missing values, negatives, partial "
    "years), scale, start year and calibration period inside the record; or an argument that must be "
    "rejected (calibration start before the data, calibration longer than the record, scale absent or "
    "below 1), for both periodicities. Non-trivial: at least 12 present values, or a rejection was due."
)
ASSUMPTIONS = [
    "normals that are not positive only through rounding are not compared",
    "calibration periods that are short enough but end after the record are not generated",
]


@st.composite
def case(draw, per, negatives=True):
    if per == 12:
        rec = draw(gen.record(per=12, min_years=1, max_years=30, negatives=negatives, units=gen.UNITS))
        scale = draw(gen.scales_monthly)
    else:
        rec = draw(gen.record(per=366, min_years=1, max_years=6, negatives=negatives))
        scale = draw(gen.scales_daily)
    first = draw(gen.start_years)
    whole = rec["n"] // per
    a = draw(st.integers(0, whole - 1))
    b = draw(st.integers(a, whole - 1))
    if draw(st.integers(0, 3)) == 0:
        a, b = 0, whole - 1
    return {
        "rec": rec, "scale": scale, "first": first, "cal": [first + a, first + b],
        "dry": draw(st.sampled_from([0, 0, 0, 1])),
        "layout": draw(st.sampled_from(["C", "C", "strided"])),
    }


either = st.one_of(*[case(12)] * 11, case(366))


def build(case):
    v = gen.build(case["rec"])
    per = case["rec"]["per"]
    if case["dry"]:
        k = case["rec"]["seed"] % per
        for d in range(case["scale"]):
            v[(k - d) % per:: per] *= 0.0
    return v


def reference(v, scale, first, cal, per):
    sums = ref.sliding_sums(v, scale)
    c = sums[(cal[0] - first) * per: (cal[1] - first + 1) * per].reshape(-1, per)
    size = np.where(np.isnan(c), 0.0, np.abs(c)).sum(axis=0)
    n = (~np.isnan(c)).sum(axis=0)
    normal = np.where(np.isnan(c), 0.0, c).sum(axis=0) / n
    delicate = (np.abs(normal) <= 1e-9 * size / np.maximum(n, 1)) & (size > 0)
    normal = np.where(normal > 0, normal, np.nan)
    k = np.arange(v.size) % per
    return sums / normal[k], delicate[k], normal


def call(worker, case, v, **changes):
    c = dict(case, **changes)
    period = MONTHLY if c["rec"]["per"] == 12 else DAILY
    return worker.call("indices.percentage_of_normal", Arr(v, case["layout"]), c["scale"], c["first"], c["cal"][0], c["cal"][1], period)


@test("C09", "values", either, quick=3500)
def values(case, worker):
    """Percent of normal against sliding sum / calibration mean of the calendar step."""
    per = case["rec"]["per"]
    v = build(case)
    e, skip, normal = reference(v, case["scale"], case["first"], case["cal"], per)
    got = need_array(call(worker, case, v), "percent of normal", (v.size,))
    same(got, e, "percent of normal", rtol=1e-8, atol=1e-12, ignore=skip)
    out = {"per %d" % per}
    if np.isfinite(e).sum() >= 12:
        out.add("nontrivial")
    if np.isnan(normal).any() and not np.isnan(normal).all():
        out.add("step without a positive normal")
    if (v < 0).any():
        out.add("negatives")
    return out


@test("C09", "relations", st.tuples(st.one_of(*[case(12, False)] * 11, case(366, False)), st.floats(0.001, 1000)), quick=1400)
def relations(case, worker):
    """Unit scaling changes nothing; over the calibration years each calendar step averages to 1."""
    case, factor = case
    per = case["rec"]["per"]
    v = build(case)
    a = need_array(call(worker, case, v), "percent of normal", (v.size,))
    b = need_array(call(worker, case, v * factor), "percent of normal", (v.size,))
    same(b, a, "percent of normal after a change of unit", rtol=1e-8, atol=1e-12)
    c = a[(case["cal"][0] - case["first"]) * per: (case["cal"][1] - case["first"] + 1) * per].reshape(-1, per)
    n = (~np.isnan(c)).sum(axis=0)
    mean = np.where(np.isnan(c), 0, c).sum(axis=0) / n
    same(mean, np.where(n > 0, 1.0, np.nan), "mean percent of normal over the calibration years", rtol=0, atol=1e-8)
    return {"nontrivial"} if np.isfinite(a).sum() >= 12 else set()


@test("C09", "rejections", st.tuples(case(12), st.sampled_from([12, 366]), st.sampled_from(
    ["before", "before far", "long", "longer", "scale none", "scale 0", "scale -1"]), st.integers(0, 9)), quick=1050)
def rejections(case, worker):
    """Arguments the property names are refused with ValueError; their neighbours are accepted."""
    case, per, what, d = case
    years = 1 + case["rec"]["n"] // 12 % (30 if per == 12 else 5)
    extra = case["rec"]["n"] % 12
    v = np.random.Generator(np.random.PCG64(case["rec"]["seed"])).gamma(2.0, 10.0, years * per + extra)
    f = case["first"]
    case = dict(case, rec=dict(case["rec"], per=per), cal=[f, f + years - 1])
    good = call(worker, case, v)
    need_array(good, "percent of normal", (v.size,))
    bad = {
        "before": dict(cal=[f - 1, f + min(d, years - 1) - 1]),
        "before far": dict(cal=[f - 1 - d, f - 1]),
        "long": dict(cal=[f, f + years]),
        "longer": dict(cal=[f, f + years + d]),
        "scale none": dict(scale=None),
        "scale 0": dict(scale=0),
        "scale -1": dict(scale=-1 - d),
    }[what]
    got = call(worker, case, v, **bad)
    check(is_error(got, "ValueError"), "%s (%r) was not rejected with ValueError" % (what, bad), got=got, periodicity=per)
    return {"nontrivial", what}
