"""C16 PDSI, PHDI and PMDI follow the spell rules."""
import numpy as np
from hypothesis import strategies as st

import palmercase
import refpalmer
from harness import check, fail, need_array, need_value, plain, same, test
from props.c15 import call, compare_z

RULE = (
    "A case is a calibration climate followed by months whose precipitation is chosen from the spell state "
    "so that Z takes a wanted course (random, hovering around no spell, slow abatement, incipient indices at "
    "their thresholds, runs). The spell rules are executed independently on the returned Z. Non-trivial: at "
    "least four different transitions of the rules occur."
)
ASSUMPTIONS = [
    "months at which a threshold of the rules is met within 1e-9 are rounding-dependent; such records are not compared",
    "at the end of the record NCEI's rules give provisional values to the latest stretch of undetermined months, also "
    "when it has been resolved since (pinned by the repository's own test data)",
]
NAMES = ("PDSI", "PHDI", "PMDI")


def expected(z):
    s = refpalmer.run_spells(z)
    return s, s.finish()


def compare(r, n, what=""):
    z = plain(r[3])[:n]
    check(np.isfinite(z).all(), "Z missing for a month with data")
    s, e = expected(z)
    if s.delicate:
        return None
    for name, got, x in zip(NAMES, r, e):
        got = plain(got)
        check(np.isfinite(got[:n]).all(), name + " missing for a month with data" + what, months=np.nonzero(~np.isfinite(got[:n]))[0])
        check(np.isnan(got[n:]).all(), name + " present for a month without data" + what)
        same(got[:n], x, name + what, rtol=1e-7, atol=1e-7)
    out = set(s.labels)
    if s.longest >= 40:
        out.add("40 or more undetermined months")
    elif s.longest >= 13:
        out.add("13 or more undetermined months")
    if s.waiting:
        out.add("unresolved at the end")
    return out


def nontrivial(out):
    if len(out) >= 4:
        out.add("nontrivial")
    return out


@test("C16", "rules", st.tuples(palmercase.palmer_case(max_cal=6, max_tail=40), st.sampled_from([0, 0, 0, 2, 12])), quick=2450)
def rules(case, worker):
    """PDSI, PHDI, PMDI against the independent spell rules run on the returned Z."""
    case, trailing = case
    b = palmercase.build(case)
    if b is None:
        return {"undetermined calibration"}
    p, e, cal = b
    n = p.size
    if trailing and n - trailing >= 12 * (palmercase.window(case)[1] + 1):
        n -= trailing
        p[n:] = np.nan
    out = compare(call(worker, case, p, e), n)
    if out is None:
        return {"delicate"}
    out = nontrivial(out)
    if n % 12:
        out.add("partial final year")
    return out


@test("C16", "long", palmercase.palmer_case(max_cal=3, max_tail=60).map(lambda c: dict(c, modes=["hover"], climate="humid", awc=max(c["awc"], 2.0))), quick=210)
def long_runs(case, worker):
    """Long undetermined stretches."""
    b = palmercase.build(case)
    if b is None:
        return {"undetermined calibration"}
    p, e, cal = b
    out = compare(call(worker, case, p, e), p.size)
    return {"delicate"} if out is None else nontrivial(out)


@test("C16", "undetermined", st.tuples(palmercase.palmer_case(max_cal=3, max_tail=60).map(lambda c: dict(c, climate="humid", awc=max(c["awc"], 2.0), modes=["random"])), st.integers(1, 130), st.integers(0, 40)), quick=560)
def undetermined(case, worker):
    """Stretches of a wanted number of undetermined months (1 to 130), then other months."""
    case, length, lead = case
    b = palmercase.build(case)
    if b is None:
        return {"undetermined calibration"}
    p, e, cal = b
    rng = np.random.Generator(np.random.PCG64(case["seed"] + 3))
    start = 12 * (palmercase.window(case)[1] + 1)
    soil, s = refpalmer.Soil(case["awc"]), refpalmer.Spells()
    held = 0
    for t in range(p.size):
        st_, pr, pl = soil.potentials(e[t])
        cafec, k = cal.cafec(t % 12, e[t], st_, pr, pl), cal.k[t % 12]
        if t >= start + lead and held < length:
            # look for a Z that leaves the month undetermined
            for _ in range(30):
                z = rng.uniform(-1.2, 1.2)
                trial = s.copy()
                trial.step(z)
                if trial.waiting and cafec + z / k >= 0:
                    p[t] = cafec + z / k
                    break
        s.step(k * (p[t] - cafec))
        soil.month(p[t], e[t])
        held = max(held, len(s.waiting))
    out = compare(call(worker, case, p, e), p.size)
    return {"delicate"} if out is None else nontrivial(out)


@test("C16", "deep", palmercase.palmer_case(max_cal=3, max_tail=40).map(lambda c: dict(c, modes=["deep"], climate=["humid", "dry", "extreme"][c["seed"] % 3], awc=max(c["awc"], 1.0))), quick=350)
def deep(case, worker):
    """Long abatements of severe spells, which fizzle out or end the spell."""
    b = palmercase.build(case)
    if b is None:
        return {"undetermined calibration"}
    p, e, cal = b
    out = compare(call(worker, case, p, e), p.size)
    return {"delicate"} if out is None else nontrivial(out)


@test("C16", "extension", st.tuples(palmercase.palmer_case(max_cal=5, max_tail=25), st.integers(0, 10**6)), quick=840)
def extension(case, worker):
    """Months before the latest undetermined stretch keep their values when the record is extended."""
    case, cut = case
    b = palmercase.build(case)
    if b is None:
        return {"undetermined calibration"}
    p, e, cal = b
    start = 12 * (palmercase.window(case)[1] + 1)
    t = start + cut % max(1, p.size - start)
    a = call(worker, case, p[:t], e[:t])
    r = call(worker, case, p, e)
    s, _ = expected(plain(a[3]))
    if s.delicate:
        return {"delicate"}
    keep = s.last_wait[0] if s.last_wait else t
    whole, _ = expected(plain(r[3]))
    if whole.last_wait:
        keep = min(keep, whole.last_wait[0])
    for name, x, y in zip(NAMES, a, r):
        same(plain(y)[:keep], plain(x)[:keep], name + " of determined months after extending the record", rtol=1e-9, atol=1e-9)
    out = set(s.labels)
    if s.waiting:
        out.add("cut in an undetermined stretch")
    return nontrivial(out) if keep >= 24 else out


@test("C16", "mirror", palmercase.palmer_case(max_cal=5, max_tail=25), quick=140)
def finite(case, worker):
    """The indices stay within what Z allows: |X| <= the sum of |Z|/3 with decay 0.897."""
    b = palmercase.build(case)
    if b is None:
        return {"undetermined calibration"}
    p, e, cal = b
    r = call(worker, case, p, e)
    bound, limit = 0.0, np.empty(p.size)
    for t, z in enumerate(np.abs(plain(r[3]))):
        bound = 0.897 * bound + z / 3.0
        limit[t] = bound
    for name, x in zip(NAMES[:2], r):
        check((np.abs(plain(x)) <= limit * (1 + 1e-9) + 1e-9).all(), name + " larger than its Z history allows")
    return {"nontrivial"}
