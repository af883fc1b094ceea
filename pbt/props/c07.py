"""C07 pre-computed fitting parameters reproduce the direct computation."""
import numpy as np
from hypothesis import strategies as st

import gen
import ref
from client import DAILY, GAMMA, MONTHLY, PEARSON
from harness import check, fail, is_error, need_array, need_value, same, test
from props import c03

RULE = (
    "A case is a generated record (with PET for SPEI), distribution, scale and calibration period whose "
    "fitting parameters the library computes and gets back (under current or deprecated names, with "
    "unrelated calibration years), or generated parameters applied to another record, or an incomplete "
    "parameter set. Non-trivial: at least 12 index values finite and strictly inside (-3.09, 3.09), or a "
    "rejection was due."
)
ASSUMPTIONS = [
    "scipy.special of the generator's interpreter is correct to 1e-7 in the index",
    "calendar steps without spread, and entries within rounding of a Pearson switch-over, are not compared",
]
NEW = {"gamma": ["alpha", "beta"], "pearson": ["prob_zero", "loc", "scale", "skew"]}
OLD = {"alpha": "alphas", "beta": "betas", "prob_zero": "probabilities_of_zero", "loc": "locs", "scale": "scales", "skew": "skews"}


@st.composite
def case(draw, per):
    if per == 12:
        rec = draw(gen.record(per=12, min_years=5, max_years=25))
        scale = draw(gen.scales_monthly)
    else:
        rec = draw(gen.record(per=366, min_years=5, max_years=6))
        scale = draw(gen.scales_daily)
    first = draw(gen.start_years)
    return {
        "index": draw(st.sampled_from(["spi", "spei"])),
        "rec": rec,
        "pet": draw(c03.pets),
        "dist": draw(st.sampled_from(["gamma", "pearson"])),
        "scale": scale,
        "first": first,
        "cal": draw(gen.window(first, rec["n"], per, min_len=draw(st.sampled_from([2, 5, 5])))),
        "other": [draw(st.integers(1700, 2200)), draw(st.integers(1700, 2200))],
        "old": draw(st.lists(st.booleans(), min_size=4, max_size=4)),
    }


both_periods = st.one_of(*[case(12)] * 11, case(366))


def call(worker, case, v, pet, cal, params=None):
    dist = GAMMA if case["dist"] == "gamma" else PEARSON
    period = MONTHLY if case["rec"]["per"] == 12 else DAILY
    kw = {} if params is None else {"fitting_params": params}
    if case["index"] == "spei":
        return worker.call("indices.spei", v, pet, case["scale"], dist, period, case["first"], cal[0], cal[1], **kw)
    return worker.call("indices.spi", v, case["scale"], dist, case["first"], cal[0], cal[1], period, **kw)


def series_of(case, v, pet):
    s = ref.clip_negatives(v)
    return s - pet + 1000.0 if case["index"] == "spei" else s


def inside(z):
    return (np.isfinite(z) & (np.abs(z) < 3.09)).sum()


@test("C07", "round_trip", both_periods, quick=1680)
def round_trip(case, worker):
    """Index with the library's own parameters passed in equals the direct index, whatever
    calibration years are then given."""
    per = case["rec"]["per"]
    v = gen.build(case["rec"])
    pet = c03.build_pet(case["pet"], v.size, per)
    series = series_of(case, v, pet)
    window = gen.effective_window(case["first"], v.size, per, case["cal"])
    z, ignore, info = ref.standardise(series, case["scale"], case["dist"], case["first"], window, per)
    if info["reject"] or np.isnan(info["table"]).all():
        return {"no spread or no sums"}
    fn = "compute.gamma_parameters" if case["dist"] == "gamma" else "compute.pearson_parameters"
    if case["index"] == "spi":
        table = need_value(worker.call("compute.scale_values", v, case["scale"], MONTHLY if per == 12 else DAILY), "scale_values")
    else:
        table = info["table"]
    params = need_value(
        worker.call(fn, table, case["first"], case["cal"][0], case["cal"][1], MONTHLY if per == 12 else DAILY), fn
    )
    names = NEW[case["dist"]]
    if case["index"] == "spei":
        names = [OLD[n] if o else n for n, o in zip(names, case["old"])]
    params = dict(zip(names, params))
    direct = need_array(call(worker, case, v, pet, case["cal"]), "direct index", (v.size,))
    a = need_array(call(worker, case, v, pet, case["cal"], params), "index with parameters", (v.size,))
    same(a, direct, "index with pre-computed parameters", rtol=0, atol=1e-7, ignore=ignore)
    b = need_array(call(worker, case, v, pet, case["other"], params), "index with parameters", (v.size,))
    same(b, a, "index with pre-computed parameters and other calibration years", rtol=0, atol=1e-9, ignore=ignore)
    out = {case["dist"], case["index"]}
    if names != NEW[case["dist"]][: len(names)]:
        out.add("deprecated names")
    if inside(direct[~ignore]) >= 12:
        out.add("nontrivial")
    return out


def draw_params(case, table):
    """Plausible parameters that have nothing to do with the record's own fit."""
    per = case["rec"]["per"]
    rng = np.random.Generator(np.random.PCG64(case["rec"]["seed"] + 17))
    finite = table[np.isfinite(table)]
    mean = float(finite.mean()) if finite.size and finite.mean() > 0 else 1.0
    if case["dist"] == "gamma":
        alpha = np.exp(rng.uniform(-1.5, 4.0, per))
        return [alpha, mean / alpha * rng.uniform(0.5, 2.0, per)]
    skew = rng.uniform(-2.5, 2.5, per)
    skew[rng.random(per) < 0.1] = 0.0
    p0 = np.where(rng.random(per) < 0.5, 0.0, rng.uniform(0, 0.7, per))
    return [p0, mean * rng.uniform(0.6, 1.4, per), mean * rng.uniform(0.2, 1.2, per), skew]


@test("C07", "other_record", both_periods, quick=1680)
def other_record(case, worker):
    """Given parameters, the index of any record is the reference transform of its sums."""
    per = case["rec"]["per"]
    v = gen.build(case["rec"])
    pet = c03.build_pet(case["pet"], v.size, per)
    series = series_of(case, v, pet)
    table = ref.by_year(ref.sliding_sums(series, case["scale"]), per)
    if np.isnan(table).all():
        return {"no sums"}
    params = draw_params(case, table)
    if case["dist"] == "gamma":
        z, ignore = ref.gamma_transform(table, *params), np.zeros(table.shape, bool)
    else:
        z, ignore = ref.pearson_transform(table, *params)
    got = need_array(call(worker, case, v, pet, case["other"], dict(zip(NEW[case["dist"]], params))), "index with parameters", (v.size,))
    z, ignore = z.ravel()[: v.size], ignore.ravel()[: v.size]
    same(got, z, "%s with given %s parameters" % (case["index"], case["dist"]), rtol=0, atol=1e-5, ignore=ignore)
    out = {case["dist"], case["index"]}
    if inside(z[~ignore]) >= 12:
        out.add("nontrivial")
    return out


@test("C07", "incomplete", st.tuples(case(12), st.integers(1, 14), st.sampled_from(["none", "absent", "transform"])), quick=280)
def incomplete(case, worker):
    """Some but not all Pearson parameters: rejected."""
    case, mask, how = case
    case = dict(case, dist="pearson")
    v = gen.build(dict(case["rec"], nan="none"))
    pet = c03.build_pet(dict(case["pet"], nan="none"), v.size, 12)
    table = ref.by_year(ref.sliding_sums(series_of(case, v, pet), 1), 12)
    params = draw_params(case, table)
    keep = [bool(mask >> i & 1) for i in range(4)]
    what = "an incomplete set of Pearson parameters %s" % [n for n, k in zip(NEW["pearson"], keep) if k]
    if how == "transform":
        got = worker.call(
            "compute.transform_fitted_pearson", table, case["first"], case["first"], case["first"] + 3, MONTHLY,
            *[p if k else None for p, k in zip(params, keep)],
        )
        check(is_error(got, "ValueError"), what + " was not rejected with ValueError", got=got)
    else:
        d = {n: p for n, p, k in zip(NEW["pearson"], params, keep) if k}
        if how == "none":
            d.update({n: None for n, k in zip(NEW["pearson"], keep) if not k})
        got = call(worker, case, v, pet, [case["first"], case["first"] + 3], d)
        check(is_error(got, "ValueError", "KeyError"), what + " was not rejected", got=got)
    return {"nontrivial", how}
