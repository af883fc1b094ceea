"""C03 SPEI is the standardised climatic water balance."""
import numpy as np
from hypothesis import strategies as st

import gen
import ref
from client import DAILY, GAMMA, MONTHLY, PEARSON
from harness import check, is_error, need_array, plain, same, test

RULE = (
    "A case is a generated precipitation record (negatives and missing values included), a PET "
    "record (seasonal, constant offset, heavy-tailed, with its own missing values), distribution, "
    "scale, start year, calibration period in or outside the record and array shapes. P - PET + 1000 "
    "stays positive. Non-trivial: at least 12 index values finite and strictly inside (-3.09, 3.09)."
)
ASSUMPTIONS = [
    "scipy.special of the generator's interpreter is correct to 1e-7 in the index",
    "balances with P - PET <= -1000 are not generated for the gamma distribution (outside its domain)",
    "calendar steps without spread in the calibration years are not compared",
]
CLIM = [c for c in gen.CLIMATES if c not in ("tiny",)]


def build_pet(spec, n, per):
    rng = np.random.Generator(np.random.PCG64(spec["seed"]))
    step = np.arange(n) % per
    season = 1.0 + 0.9 * np.sin(2 * np.pi * (step / per + rng.random()))
    if spec["kind"] == "seasonal":
        v = 60.0 * season + rng.normal(0, 8.0, n)
    elif spec["kind"] == "heavy":
        v = np.minimum(rng.gamma(0.7, 60.0, n), 900.0)
    elif spec["kind"] == "constant":
        v = np.full(n, 55.5)
    elif spec["kind"] == "extreme":  # balances far below zero
        v = rng.gamma(2.0, 700.0, n)
    else:
        v = np.zeros(n)
    if spec["kind"] == "seasonal" and spec["seed"] % 3:
        v = np.maximum(v, 0.0)
    return gen.punch(v, spec["nan"], per, spec["seed"])


pets = st.fixed_dictionaries({
    "kind": st.sampled_from(["seasonal", "seasonal", "heavy", "constant", "zero"]),
    "seed": st.integers(0, 2**32 - 1),
    "nan": st.sampled_from(["none", "none", "none", "some", "trailing", "leading", "column", "year", "gap"]),
})


@st.composite
def case(draw, per, min_years=4):
    if per == 12:
        rec = draw(gen.record(per=12, min_years=min_years, max_years=30, climates=CLIM))
        scale = draw(gen.scales_monthly)
    else:
        rec = draw(gen.record(per=366, min_years=5, max_years=7, climates=CLIM))
        scale = draw(gen.scales_daily)
    first = draw(gen.start_years)
    shapes = [[1, 1], [1, 1], [2, 2], [1, 2], [2, 1]] if rec["n"] % per == 0 else [[1, 1]]
    return {
        "rec": rec,
        "pet": draw(pets),
        "dist": draw(st.sampled_from(["gamma", "pearson"])),
        "scale": scale,
        "first": first,
        "cal": draw(gen.window(first, rec["n"], per, min_len=draw(st.sampled_from([1, 6, 6])))),
        "shapes": draw(st.sampled_from(shapes)),
    }


def extreme(case):
    """The same with balances P - PET + 1000 of any sign (Pearson only)."""
    return dict(case, dist="pearson", pet=dict(case["pet"], kind="extreme"))


def inputs(case):
    per = case["rec"]["per"]
    p = gen.build(case["rec"])
    pet = build_pet(case["pet"], p.size, per)
    return p, pet, per


def call(worker, case, p, pet, shapes=(1, 1)):
    per = case["rec"]["per"]
    if shapes[0] == 2:
        p = p.reshape(-1, per)
    if shapes[1] == 2:
        pet = pet.reshape(-1, per)
    return worker.call(
        "indices.spei", p, pet, case["scale"], GAMMA if case["dist"] == "gamma" else PEARSON,
        MONTHLY if per == 12 else DAILY, case["first"], case["cal"][0], case["cal"][1],
    )


def expected(case, p, pet, per):
    window = gen.effective_window(case["first"], p.size, per, case["cal"])
    balance = ref.clip_negatives(p) - pet + 1000.0
    return ref.standardise(balance, case["scale"], case["dist"], case["first"], window, per)


def reference_case(case, worker):
    p, pet, per = inputs(case)
    z, ignore, info = expected(case, p, pet, per)
    got = call(worker, case, p, pet, case["shapes"])
    if info["reject"]:
        return {"no spread, " + ("refused" if is_error(got) else "accepted")}
    got = need_array(got, "SPEI")
    if not np.isnan(p).all():
        check(got.shape == (p.size,), "SPEI does not have the input's length", got=got.shape)
    same(got.ravel(), z, "SPEI (%s)" % case["dist"], rtol=0, atol=1e-5, ignore=ignore)
    fz = z[~ignore]
    out = {case["dist"], "shapes %s" % case["shapes"]}
    if (np.abs(fz) < 3.09).sum() >= 12:
        out.add("nontrivial")
    if (p < 0).any():
        out.add("negative precipitation")
    if np.isnan(pet).any():
        out.add("missing PET")
    return out


@test("C03", "spei_monthly", case(12), quick=4000)
def spei_monthly(case, worker):
    """Monthly SPEI (both distributions) against the reference computation."""
    return reference_case(case, worker)


@test("C03", "negative_balance", case(12).map(extreme), quick=500)
def negative_balance(case, worker):
    """Pearson SPEI of balances P - PET + 1000 of any sign."""
    return reference_case(case, worker)


@test("C03", "spei_daily", case(366), quick=240)
def spei_daily(case, worker):
    """Daily SPEI (both distributions) against the reference computation."""
    return reference_case(case, worker)


@test("C03", "difference_only", st.tuples(case(12), st.integers(0, 2**32 - 1)), quick=900)
def difference_only(case, worker):
    """Adding the same amounts to precipitation and PET changes nothing; a larger balance in
    the last year never gives a lower SPEI (calibration on the years before)."""
    case, seed = case
    p, pet, per = inputs(case)
    p = ref.clip_negatives(p)
    z, ignore, info = expected(case, p, pet, per)
    if info["reject"]:
        return {"no spread"}
    rng = np.random.Generator(np.random.PCG64(seed))
    shift = rng.integers(0, 400, p.size) * 0.5
    a = need_array(call(worker, case, p, pet), "SPEI")
    b = need_array(call(worker, case, p + shift, pet + shift), "SPEI")
    same(b, a, "SPEI after adding the same amounts to P and PET", rtol=0, atol=1e-5, ignore=ignore)
    out = {case["dist"]}
    if (np.abs(z[~ignore]) < 3.09).sum() >= 12:
        out.add("nontrivial")
    return out


@test("C03", "order", st.tuples(case(12, min_years=6), st.integers(0, 2**32 - 1)), quick=900)
def order(case, worker):
    """A larger balance of one calendar step never gets a lower SPEI (Pearson: up to the 0.0005
    of probability pinned at the distribution's end)."""
    case, seed = case
    p, pet, per = inputs(case)
    z, ignore, info = expected(case, p, pet, per)
    if info["reject"]:
        return {"no spread"}
    got = need_array(call(worker, case, p, pet), "SPEI").ravel()
    if got.size != p.size:
        return {"all missing"}
    pairs = check_order(info["table"], got, ignore, case["dist"], per)
    return {"nontrivial", case["dist"]} if pairs >= 24 else {case["dist"]}


def check_order(table, got, ignore, dist, per):
    """Within each calendar step the index is non-decreasing in the sum."""
    from scipy import special

    sums = table.ravel()[: got.size]
    pairs = 0
    slack = 1e-9 if dist == "gamma" else 0.0005 + 1e-9
    for k in range(per):
        s, g, bad = sums[k::per], got[k::per], ignore[k::per]
        use = np.isfinite(s) & np.isfinite(g) & ~bad
        s, g = s[use], g[use]
        o = np.argsort(s, kind="stable")
        s, q = s[o], special.ndtr(g[o])
        if s.size > 1:
            top = np.maximum.accumulate(q)[:-1]
            drop = (top - q[1:] > slack) & (np.diff(s) > 1e-7 * np.abs(s[1:]))
            # equal sums must have equal index, a smaller sum must not exceed a larger one
            check(not drop.any(), "a larger sum got a lower index", step=k, sums=s, index=g[o])
            pairs += s.size - 1
    return pairs
