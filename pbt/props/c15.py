"""C15 Palmer water balance, coefficients and Z."""
import numpy as np
from hypothesis import strategies as st

import palmercase
import refpalmer
from harness import check, fail, is_error, need_array, need_value, plain, same, test

RULE = (
    "A case is a generated climate (precipitation and PET in inches), available water capacity, calibration "
    "years inside the record, a complete or partial final year, and optional changes (negative months, "
    "trailing missing months, later months replaced, supplied coefficients). Non-trivial: the calibration "
    "determines all weights, and Z takes at least 24 distinct values."
)
ASSUMPTIONS = [
    "records without missing values except at the end; calibration years complete, inside the record and varied "
    "enough for all twelve weights to exist (mean absolute departure above 1e-6 inch)",
    "supplied coefficients replace the calibration's coefficients only: the K weights still come from the "
    "calibration years, as in the present library",
]
NAMES = ["alpha", "beta", "gamma", "delta"]


def call(worker, case, p, e, coefficients=None):
    y0, y1 = palmercase.window(case)
    args = [p, e, case["awc"], case["first"], case["first"] + y0, case["first"] + y1]
    if coefficients is not None:
        args.append(coefficients)
    r = need_value(worker.call("palmer.pdsi", *args), "pdsi")
    check(isinstance(r, tuple) and len(r) == 5, "pdsi did not return five results")
    for a in r[:4]:
        need_array(a, "pdsi", np.shape(p))
    return r


def compare_z(got, z, size, what):
    bad = ~(np.abs(got - z) <= 1e-7 * (1.0 + size))
    if bad.any():
        i = int(np.nonzero(bad)[0][0])
        fail(what + ": Z-index differs", month=i, got=float(got[i]), expected=float(z[i]), differing=int(bad.sum()))


def coefficients(r):
    return [plain(r[4][k]) for k in NAMES]


def labels(case, z):
    out = {case["climate"], "awc<=1" if case["awc"] <= 1 else "awc>1"}
    if np.unique(np.round(z, 6)).size >= 24:
        out.add("nontrivial")
    return out


@test("C15", "model", st.tuples(palmercase.palmer_case(crafted=False, max_cal=25) | palmercase.palmer_case(),
                                st.sampled_from([0, 0, 1, 4]), st.sampled_from([0, 0, 0, 1, 7, 12, 15]), st.sampled_from(["p", "pet", "both"])), quick=1500)
def model(case, worker):
    """Z and the coefficients against the reference water balance."""
    case, negatives, trailing, which = case
    b = palmercase.build(case)
    if b is None:
        return {"undetermined"}
    p, e, cal = b
    rng = np.random.Generator(np.random.PCG64(case["seed"] + 5))
    y0, y1 = palmercase.window(case)
    q = p.copy()
    if negatives:
        i = rng.integers(0, p.size, negatives)
        p[i] = 0.0
        q[i] = -rng.choice([0.01, 1.0, 99.9], negatives)
        cal = refpalmer.Calibration(p, e, case["awc"], y0, y1)
        if not cal.determined:
            return {"undetermined"}
    trailing = min(trailing, p.size - 12 * (y1 + 1))
    n = p.size - trailing
    if trailing:
        if which in ("p", "both"):
            q[n:] = np.nan
        if which in ("pet", "both"):
            e = e.copy()
            e[n:] = np.nan
    r = call(worker, case, q, e)
    z, size = refpalmer.z_index(p[:n], e[:n], case["awc"], cal)
    compare_z(plain(r[3])[:n], z, size, "record")
    for name, expected, got in zip(NAMES, (cal.alpha, cal.beta, cal.gamma, cal.delta), coefficients(r)):
        same(got, expected, "coefficient " + name, rtol=1e-8, atol=1e-9)
    for a in r[:4]:
        check(np.isnan(plain(a)[n:]).all(), "a value for a month without data")
    out = labels(case, z)
    if negatives:
        out.add("negatives")
        if trailing and which != "pet":
            out.add("negatives and missing")
    if case["partial"]:
        out.add("partial year")
    return out


@test("C15", "causal", st.tuples(palmercase.palmer_case(), st.integers(0, 10**6), st.booleans()), quick=400)
def causal(case, worker):
    """Z before a month after the calibration years does not change when that month and all later ones do."""
    case, cut, short = case
    b = palmercase.build(case)
    if b is None:
        return {"undetermined"}
    p, e, cal = b
    start = 12 * (palmercase.window(case)[1] + 1)
    if p.size <= start:
        return set()
    t = start + cut % (p.size - start)
    rng = np.random.Generator(np.random.PCG64(case["seed"] + 9))
    a = call(worker, case, p, e)
    if short:
        if t == 0:
            return set()
        q, f = p[:t], e[:t]
    else:
        q, f = p.copy(), e.copy()
        q[t:] = rng.gamma(1.0, 4.0, p.size - t)
        f[t:] *= rng.uniform(0.5, 2.0, p.size - t)
    r = call(worker, case, q, f)
    same(plain(r[3])[:t], plain(a[3])[:t], "Z before the changed months", rtol=1e-9, atol=1e-9)
    for name, x, y in zip(NAMES, coefficients(a), coefficients(r)):
        same(y, x, "coefficient %s after a change outside the calibration years" % name, rtol=1e-9, atol=1e-12)
    return labels(case, plain(a[3])) | {"cut short" if short else "changed"}


@test("C15", "coefficients", st.tuples(palmercase.palmer_case(), st.sampled_from(["array", "list", "tuple"]), st.sampled_from(["same", "same", "other"])), quick=500)
def supplied(case, worker):
    """Coefficients of one call passed to the next give the same indices; other coefficients are used as
    given and returned; an incomplete set is ignored."""
    case, kind, what = case
    b = palmercase.build(case)
    if b is None:
        return {"undetermined"}
    p, e, cal = b
    a = call(worker, case, p, e)
    c = coefficients(a)
    y0, y1 = palmercase.window(case)
    rng = np.random.Generator(np.random.PCG64(case["seed"] + 11))
    if what == "other":
        c = [x * rng.uniform(0.6, 1.4, 12) for x in c]
    conv = {"array": lambda x: x.copy(), "list": lambda x: [float(v) for v in x], "tuple": lambda x: tuple(float(v) for v in x)}[kind]
    params = {k: conv(x) for k, x in zip(NAMES, c)}
    r = call(worker, case, p, e, params)
    for name, x, y in zip(NAMES, c, coefficients(r)):
        same(y, x, "returned coefficient " + name, rtol=1e-12, atol=0)
    if what == "same":
        for name, x, y in zip(("PDSI", "PHDI", "PMDI", "Z"), a, r):
            same(y, x, name + " with the coefficients of the earlier call", rtol=1e-7, atol=1e-7)
    else:
        cal = refpalmer.Calibration(p, e, case["awc"], y0, y1, c)
        if not cal.determined:
            return {"undetermined"}
        z, size = refpalmer.z_index(p, e, case["awc"], cal)
        compare_z(plain(r[3]), z, size, "supplied coefficients")
    # a set without all four is not usable: as if none were given
    drop = NAMES[case["seed"] % 4]
    part = {k: v for k, v in params.items() if k != drop}
    r = call(worker, case, p, e, part)
    for name, x, y in zip(("PDSI", "PHDI", "PMDI", "Z"), a, r):
        same(y, x, name + " with an incomplete set of coefficients", rtol=1e-7, atol=1e-7)
    return labels(case, plain(a[3])) | {what}


@test("C15", "shift", st.tuples(palmercase.palmer_case(), st.integers(-900, 900)), quick=200)
def shift(case, worker):
    """Only the position of the calibration years in the record counts, not the year numbers; extra
    years before the calibration period act only through the soil."""
    case, years = case
    b = palmercase.build(case)
    if b is None:
        return {"undetermined"}
    p, e, cal = b
    a = call(worker, case, p, e)
    r = call(worker, dict(case, first=case["first"] + years), p, e)
    for name, x, y in zip(("PDSI", "PHDI", "PMDI", "Z"), a, r):
        same(y, x, name + " with other year numbers", rtol=1e-9, atol=1e-9)
    return labels(case, plain(a[3]))
