"""C11 Hargreaves PET."""
import numpy as np
from hypothesis import strategies as st

import ref
from codec import Arr
from harness import check, is_error, need_array, same, test
from props.c10 import latitudes

RULE = (
    "A case is three generated daily temperature series (range, mean level, missing days in each, equal "
    "minimum and maximum), 1-D of any length or years x 366, a latitude in [-90, 90] and a memory "
    "layout; or inputs that must be rejected. Non-trivial: at least 30 present values, or a rejection "
    "was due."
)
ASSUMPTIONS = ["daily maximum is not below daily minimum", "relative tolerance 1e-7"]


@st.composite
def case(draw):
    kind = draw(st.sampled_from(["short", "years", "years", "odd"]))
    if kind == "short":
        n = draw(st.integers(1, 80))
    elif kind == "years":
        n = 366 * draw(st.integers(1, 3))
    else:
        n = draw(st.integers(300, 1100))
    return {
        "n": n,
        "two": draw(st.booleans()) if n % 366 == 0 else False,
        "mean": draw(st.sampled_from([-25.0, -17.8, 0.0, 12.0, 30.0]) | st.floats(-30, 40)),
        "range": draw(st.sampled_from([0.0, 3.0, 10.0, 20.0])),
        "seed": draw(st.integers(0, 2**32 - 1)),
        "missing": draw(st.lists(st.tuples(st.integers(0, 2), st.integers(0, n - 1), st.integers(1, 20)).map(list), max_size=4)),
        "lat": draw(latitudes),
        "layout": draw(st.sampled_from(["C", "C", "strided", "F"])),
        "own_mean": draw(st.booleans()),
    }


def build(case):
    rng = np.random.Generator(np.random.PCG64(case["seed"]))
    n = case["n"]
    mid = case["mean"] + 8 * np.sin(2 * np.pi * np.arange(n) / 366.0 + rng.random()) + rng.normal(0, 2, n)
    half = rng.random(n) * case["range"] / 2
    half[rng.random(n) < 0.05] = 0.0
    tmin, tmax = np.round(mid - half, 2), np.round(mid + half, 2)
    tmean = (tmin + tmax) / 2 if not case["own_mean"] else np.round(mid + rng.normal(0, 3, n), 2)
    out = [tmin, tmax, tmean]
    for which, start, length in case["missing"]:
        out[which][start: start + length] = np.nan
    return out


@test("C11", "formula", case(), quick=2500)
def formula(case, worker):
    """Hargreaves PET against FAO-56 equation 52, day by day."""
    arrays = build(case)
    shaped = [a.reshape(-1, 366) if case["two"] else a for a in arrays]
    layout = case["layout"] if case["two"] or case["layout"] != "F" else "C"
    got = need_array(worker.call("eto.eto_hargreaves", *[Arr(a, layout) for a in shaped], case["lat"]), "Hargreaves PET", (case["n"],))
    e = ref.hargreaves(*arrays, case["lat"])
    missing = np.isnan(arrays[0]) | np.isnan(arrays[1]) | np.isnan(arrays[2])
    check((np.isnan(got) == missing).all(), "Hargreaves PET is not missing exactly where a temperature is")
    same(got, e, "Hargreaves PET", rtol=1e-7, atol=1e-9)
    out = {"2-D" if case["two"] else "1-D"}
    if np.isfinite(e).sum() >= 30:
        out.add("nontrivial")
    if missing.any():
        out.add("missing days")
    if abs(case["lat"]) > 66.4:
        out.add("polar")
    return out


@test("C11", "rejections", st.tuples(case(), st.sampled_from(["size0", "size1", "size2", "lat"]), st.integers(1, 400),
                                     st.floats(90.001, 1e5) | st.floats(-1e5, -90.001)), quick=500)
def rejections(case, worker):
    """Inputs of different sizes and impossible latitudes are refused with ValueError."""
    case, what, d, lat = case
    arrays = build(dict(case, missing=[]))
    if what == "lat":
        got = worker.call("eto.eto_hargreaves", *arrays, lat)
    else:
        k = int(what[-1])
        arrays[k] = np.concatenate([arrays[k], arrays[k][:1].repeat(d)]) if d % 2 or arrays[k].size < 2 else arrays[k][:-1]
        got = worker.call("eto.eto_hargreaves", *arrays, case["lat"])
    check(is_error(got, "ValueError"), "%s was not rejected with ValueError" % what, got=got)
    return {"nontrivial", what}
