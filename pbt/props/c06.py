"""C06 only the calibration years determine the fit."""
import numpy as np
from hypothesis import strategies as st

import gen
import ref
from client import DAILY, GAMMA, MONTHLY, PEARSON
from harness import check, is_error, need_array, need_value, plain, same, test
from props import c03

RULE = (
    "A case is a generated record, distribution, scale and calibration period, plus a change of the "
    "values entering only sums outside the calibration years (or the calibration years cut out "
    "alone, or a calibration period not fully inside the record). Non-trivial: some value changed and "
    "at least three calendar steps have a fit (parameters) or 12 interior index values are compared."
)
ASSUMPTIONS = [
    "for gamma SPI the share of zero sums is taken over the whole record by definition, so changes outside "
    "the calibration years keep zeros zero and non-zeros non-zero",
    "calendar steps without spread in the calibration years are not compared",
]


@st.composite
def case(draw, per, kinds=("inside", "inside", "head", "tail")):
    if per == 12:
        rec = draw(gen.record(per=12, min_years=6, max_years=30, nans=["none", "none", "some", "gap", "trailing", "leading"]))
        scale = draw(gen.scales_monthly)
    else:
        rec = draw(gen.record(per=366, min_years=6, max_years=7, nans=["none", "none", "some", "gap", "trailing"]))
        scale = draw(st.sampled_from([1, 7, 30, 90]))
    first = draw(gen.start_years)
    return {
        "rec": rec,
        "dist": draw(st.sampled_from(["gamma", "pearson"])),
        "scale": scale,
        "first": first,
        "cal": draw(gen.window(first, rec["n"], per, kinds=list(kinds), min_len=draw(st.sampled_from([2, 5, 5])))),
        "seed2": draw(st.integers(0, 2**32 - 1)),
        "edge": draw(st.booleans()),
        "change": draw(st.sampled_from(["scale", "scale", "huge"])),
    }


def outside_only(case, n):
    """Mask of the inputs that enter no sum of the calibration years."""
    per, scale = case["rec"]["per"], case["scale"]
    lo = (case["cal"][0] - case["first"]) * per
    hi = (case["cal"][1] - case["first"] + 1) * per
    used = np.zeros(n, bool)
    used[max(0, lo - scale + 1): hi] = True
    return ~used


def altered(case, v):
    """The record with values changed that enter no calibration sum; only the values next to
    the calibration years if `edge`."""
    out = outside_only(case, v.size)
    if case["edge"]:
        per = case["rec"]["per"]
        i = np.nonzero(~out)[0]
        near = np.zeros(v.size, bool)
        near[max(0, i[0] - per): i[-1] + 1 + per] = True
        out &= near
    rng = np.random.Generator(np.random.PCG64(case["seed2"]))
    w = v.copy()
    k = int(out.sum())
    w[out] *= rng.uniform(0.2, 5.0, k) if case["change"] == "scale" else rng.uniform(20.0, 500.0, k)
    return w, not np.array_equal(w, v, equal_nan=True)


def period(case):
    return MONTHLY if case["rec"]["per"] == 12 else DAILY


def parameters(worker, case, table, first, cal):
    fn = "compute.gamma_parameters" if case["dist"] == "gamma" else "compute.pearson_parameters"
    return worker.call(fn, table, first, cal[0], cal[1], period(case))


def tables(case, *records):
    per = case["rec"]["per"]
    return [ref.by_year(ref.sliding_sums(ref.clip_negatives(v), case["scale"]), per) for v in records]


def fit_state(case, table, first, cal):
    """(columns to ignore, rejected, number of fitted columns)"""
    if case["dist"] == "gamma":
        _, _, a = ref.gamma_fit(table, first, cal)
        bad = ref.degenerate_gamma(a)
        return bad, False, int((np.isfinite(a) & ~bad).sum())
    code = ref.pearson_fit(table, first, cal)[4]
    return code >= 2, bool((code == 2).any()), int((code == 0).sum())


@test("C06", "parameters", st.one_of(*[case(12)] * 11, case(366)), quick=1500)
def params(case, worker):
    """Parameters do not change with values outside the calibration years, and equal those of the
    calibration years alone."""
    v = gen.build(case["rec"])
    w, changed = altered(case, v)
    first, cal = case["first"], case["cal"]
    t, u = tables(case, v, w)
    bad, reject, fitted = fit_state(case, t, first, cal)
    if reject:
        return {"no spread"}
    only = t[cal[0] - first: cal[1] - first + 1]
    if np.isnan(t).all() or np.isnan(only).all():
        return {"all missing"}
    a = need_value(parameters(worker, case, t, first, cal), "parameters")
    b = need_value(parameters(worker, case, u, first, cal), "parameters")
    c = need_value(parameters(worker, case, only, cal[0], cal), "parameters")
    for x, y, z in zip(a, b, c):
        same(y, x, "%s parameters after a change outside the calibration years" % case["dist"], ignore=bad)
        same(z, x, "%s parameters of the calibration years alone" % case["dist"], rtol=1e-8, atol=1e-9, ignore=bad)
    out = {case["dist"]}
    if changed and fitted >= 3:
        out.add("nontrivial")
    return out


@test("C06", "index", st.tuples(st.one_of(*[case(12)] * 11, case(366)), c03.pets, st.booleans()), quick=1000)
def index(case, worker):
    """SPI and SPEI inside the calibration years do not change with values outside them."""
    case, pet, spei = case
    v = gen.build(case["rec"])
    w, changed = altered(case, v)
    first, cal = case["first"], case["cal"]
    per = case["rec"]["per"]
    if spei:
        e = c03.build_pet(dict(pet, nan="none"), v.size, per)
        sv, sw = ref.clip_negatives(v) - e + 1000.0, ref.clip_negatives(w) - e + 1000.0
        args = lambda x: ["indices.spei", x, e, case["scale"], dist, period(case), first, cal[0], cal[1]]
    else:
        sv, sw = ref.clip_negatives(v), ref.clip_negatives(w)
        args = lambda x: ["indices.spi", x, case["scale"], dist, first, cal[0], cal[1], period(case)]
    dist = GAMMA if case["dist"] == "gamma" else PEARSON
    z, ignore, info = ref.standardise(sv, case["scale"], case["dist"], first, cal, per)
    if info["reject"] or np.isnan(v).all():
        return {"no spread"}
    a = need_array(worker.call(*args(v)), "index", (v.size,))
    b = need_array(worker.call(*args(w)), "index", (v.size,))
    touched = np.zeros(v.size, bool)
    for i in np.nonzero(~((v == w) | (np.isnan(v) & np.isnan(w))))[0]:
        touched[i: i + case["scale"]] = True
    skip = ignore | touched
    same(b, a, "index (%s) after a change outside the calibration years" % case["dist"], rtol=0, atol=1e-9, ignore=skip)
    out = {case["dist"], "spei" if spei else "spi"}
    if changed and (np.isfinite(a) & ~skip & (np.abs(a) < 3.09)).sum() >= 12:
        out.add("nontrivial")
    return out


@test("C06", "fallback", st.tuples(st.one_of(*[case(12, ("past_end", "before", "outside", "huge"))] * 11,
                                             case(366, ("past_end", "before", "outside", "huge"))), c03.pets, st.sampled_from(["spi", "spei", "parameters"])), quick=1000)
def fallback(case, worker):
    """A calibration period not fully inside the record gives what the full record gives."""
    case, pet, what = case
    per = case["rec"]["per"]
    v = gen.build(case["rec"])
    first, cal = case["first"], case["cal"]
    full = gen.effective_window(first, v.size, per, [first - 1, first])
    dist = GAMMA if case["dist"] == "gamma" else PEARSON
    if np.isnan(v).all():
        return {"all missing"}
    series, e = ref.clip_negatives(v), None
    if what == "spei":
        e = c03.build_pet(pet, v.size, per)
        series = series - e + 1000.0
    z, ignore, info = ref.standardise(series, case["scale"], case["dist"], first, full, per)
    if info["reject"]:
        return {"no spread"}
    out = {what, case["dist"]}
    if what == "parameters":
        bad, _, fitted = fit_state(case, info["table"], first, full)
        a = need_value(parameters(worker, case, info["table"], first, cal), "parameters")
        b = need_value(parameters(worker, case, info["table"], first, full), "parameters")
        for x, y in zip(a, b):
            same(x, y, "parameters for a calibration period outside the record", ignore=bad)
        return out | ({"nontrivial"} if fitted >= 3 else set())
    if what == "spei":
        args = lambda c: ["indices.spei", v, e, case["scale"], dist, period(case), first, c[0], c[1]]
    else:
        args = lambda c: ["indices.spi", v, case["scale"], dist, first, c[0], c[1], period(case)]
    a = need_array(worker.call(*args(cal)), "index", (v.size,))
    b = need_array(worker.call(*args(full)), "index", (v.size,))
    same(a, b, "index for a calibration period outside the record", rtol=0, atol=1e-9, ignore=ignore)
    same(a, z, "index for a calibration period outside the record (reference)", rtol=0, atol=1e-5, ignore=ignore)
    if (np.isfinite(b) & (np.abs(b) < 3.09) & ~ignore).sum() >= 12:
        out.add("nontrivial")
    return out


@test("C06", "normals", case(12), quick=750)
def normals(case, worker):
    """Percent of normal inside the calibration years does not change with values outside them."""
    v = gen.build(dict(case["rec"], neg=0))
    w, changed = altered(case, v)
    first, cal = case["first"], case["cal"]
    if (cal[1] - cal[0] + 1) * 12 > v.size or (cal[1] - first + 1) * 12 > v.size:
        return {"outside the domain"}
    a, b = (
        need_array(worker.call("indices.percentage_of_normal", x, case["scale"], first, cal[0], cal[1], MONTHLY), "percent of normal", (v.size,))
        for x in (v, w)
    )
    touched = np.zeros(v.size, bool)
    for i in np.nonzero(~((v == w) | (np.isnan(v) & np.isnan(w))))[0]:
        touched[i: i + case["scale"]] = True
    same(b, a, "percent of normal after a change outside the calibration years", rtol=1e-9, atol=1e-12, ignore=touched)
    out = set()
    if changed and (np.isfinite(a) & ~touched).sum() >= 12:
        out.add("nontrivial")
    return out
