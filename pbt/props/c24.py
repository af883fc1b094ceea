"""C24 invalid library arguments are rejected, valid ones never crash."""
import numpy as np
from hypothesis import strategies as st

import gen
import ref
from client import DAILY, GAMMA, MONTHLY, PEARSON
from codec import Arr, Enum_, RemoteError
from harness import check, fail, is_error, need_array, need_value, plain, same, test
from props import c03, c17

RULE = (
    "Rejections: a function with one argument made invalid in a generated way must raise ValueError, the same call "
    "without the change must not. Representations: a call on float64 arrays repeated with the same values as "
    "integers, float32, read-only, strided, reversed, Fortran-ordered or masked arrays (masked entries hiding other "
    "data, against missing values). Well-formed: any length and missing pattern, values over the whole range of "
    "magnitudes. Non-trivial: the rejection was due and the valid call returned; the representation differs and the "
    "result holds at least five finite values; or a well-formed call returned at least one finite value."
)
ASSUMPTIONS = [
    "float32 inputs are compared as loosely as single precision demands",
    "Pearson fits of calendar steps without spread are refused with ValueError by design",
    "temperatures hold every calendar month at least once; calibration for percent of normal lies in the record",
]

# ---------------------------------------------------------------- calls on a set of arrays


def calls(name, k, per, first, years):
    """(function, argument list with array names as ("a", name)), the arrays' period."""
    period = MONTHLY if per == 12 else DAILY
    dist = GAMMA if k % 2 else PEARSON
    scale = [1, 1, 2, 3][k % 4]
    cal = [first, first + years - 1]
    a = lambda n: ("a", n)
    return {
        "spi": ("indices.spi", [a("p"), scale, dist, first, *cal, period]),
        "spei": ("indices.spei", [a("p"), a("e"), scale, dist, period, first, *cal]),
        "pnp": ("indices.percentage_of_normal", [a("p"), scale, first, first, first + years - 2, period]),
        "pet": ("indices.pet", [a("t"), 40.0, first]),
        "thorn": ("eto.eto_thornthwaite", [a("t"), 40.0, first]),
        "gpar": ("compute.gamma_parameters", [a("p"), first, *cal, period]),
        "ppar": ("compute.pearson_parameters", [a("p"), first, *cal, period]),
        "tgamma": ("compute.transform_fitted_gamma", [a("p"), first, *cal, period]),
        "tpear": ("compute.transform_fitted_pearson", [a("p"), first, *cal, period]),
        "scale": ("compute.scale_values", [a("p"), scale, period]),
        "sum": ("compute.sum_to_scale", [a("p"), scale]),
        "pdsi": ("palmer.pdsi", [a("q"), a("qe"), 3.0, first, first, first + 3]),
        "harg": ("eto.eto_hargreaves", [a("n"), a("x"), a("m"), 40.0]),
        "pci": ("indices.pci", [a("g")]),
        "lmom": ("lmoments.fit", [a("c")]),
        "to366": ("utils.transform_to_366day", [a("d"), 2000, 2]),
        "togreg": ("utils.transform_to_gregorian", [a("d366"), 2000]),
        "resh": ("utils.reshape_to_2d", [a("p"), per]),
        "sign": ("utils.sign_change", [a("n"), a("m")]),
        "rmse": ("utils.rmse", [a("n"), a("m")]),
    }[name]


# functions taking a 2-D form of their arrays as well
TWO = {"spi": 12, "spei": 12, "pet": 12, "thorn": 12, "gpar": 12, "ppar": 12, "tgamma": 12, "tpear": 12, "scale": 12, "pdsi": 12, "harg": 366, "resh": 12}


@st.composite
def shape_case(draw, names):
    return {
        "name": draw(st.sampled_from(names)),
        "k": draw(st.integers(0, 3)),
        "per": draw(st.sampled_from([12] * 9 + [366])),
        "years": draw(st.integers(5, 12)),
        "extra": draw(st.sampled_from([0, 0, 1, 7])),
        "first": draw(st.sampled_from([1950, 2000])),
        "seed": draw(st.integers(0, 2**32 - 1)),
        "zeros": draw(st.booleans()),
    }


def arrays(case, missing):
    """Integer-valued arrays (so that every representation holds them exactly)."""
    rng = np.random.Generator(np.random.PCG64(case["seed"]))
    per = case["per"]
    years = case["years"] if per == 12 else 5
    n = years * per + case["extra"]
    p = np.round(rng.gamma(2.0, 40.0, n)) + 1.0
    if case["zeros"]:
        p[rng.random(n) < 0.1] = 0.0
    n12 = case["years"] * 12 + case["extra"]
    t = np.round(14 + 12 * np.sin(np.arange(n12) * np.pi / 6) + rng.normal(0, 3, n12))
    q, qe = np.round(rng.gamma(2.0, 2.0, n12)), np.round(rng.uniform(0, 8, n12))
    lo = np.round(rng.uniform(-10, 15, 400))
    out = {
        "p": p, "e": np.round(rng.uniform(0, 90, n)), "t": t, "q": q, "qe": qe,
        "n": lo, "x": lo + np.round(rng.uniform(0, 15, 400)), "m": lo + 3.0,
        "g": np.round(rng.gamma(1.0, 6.0, 365 + case["seed"] % 2)),
        "c": np.round(rng.gamma(2.0, 100.0, 25)),
        "d": np.round(rng.gamma(1.0, 6.0, 731)), "d366": np.round(rng.gamma(1.0, 6.0, 732)),
    }
    if missing:
        for name, v in out.items():
            if name in ("q", "qe"):
                v[v.size - 3:] = np.nan
            elif name in ("g",):
                pass
            else:
                hit = rng.random(v.size) < 0.05
                v[hit] = np.nan
    return out


def make(x, arrs):
    return arrs[x[1]] if isinstance(x, tuple) and x[0] == "a" else x


def run(worker, fn, args, arrs):
    return worker.call(fn, *[make(x, arrs) for x in args])


def values(r):
    """All numbers of a result as one float array."""
    if isinstance(r, (tuple, list)):
        return np.concatenate([values(x) for x in r]) if r else np.zeros(0)
    if isinstance(r, dict):
        return np.concatenate([values(r[k]) for k in sorted(r)])
    if r is None:
        return np.zeros(0)
    return np.atleast_1d(plain(r)).ravel().astype(float)


REPRESENTATIONS = ["int", "int32", "float32", "readonly", "strided", "reversed", "nomask", "masked", "masked", "2d", "2dF", "2dstrided"]


def represent(kind, v, hide):
    if kind == "int":
        return v.astype(np.int64)
    if kind == "int32":
        return v.astype(np.int32)
    if kind == "float32":
        return v.astype(np.float32)
    if kind == "readonly":
        return Arr(v, "C", True)
    if kind in ("strided", "reversed"):
        return Arr(v, kind)
    if kind == "nomask":
        return np.ma.MaskedArray(v, mask=np.zeros(v.shape, bool))
    if kind == "masked":
        m = np.isnan(v)
        return np.ma.MaskedArray(np.where(m, hide, v), mask=m)
    raise ValueError(kind)


ALL = ["spi", "spei", "pnp", "pet", "thorn", "gpar", "ppar", "tgamma", "tpear", "scale", "sum", "pdsi", "harg", "pci", "lmom", "to366", "togreg", "resh", "sign", "rmse"]


@test("C24", "representations", st.tuples(shape_case(ALL + ["spi", "spei", "pdsi"]), st.sampled_from(REPRESENTATIONS), st.booleans(), st.sampled_from([0.0, 77.0, -999.0, 1e20])), quick=3500)
def representations(case, worker):
    """Other representations of the same values give the same result."""
    case, kind, missing, hide = case
    name = case["name"]
    missing = kind == "masked" or (missing and not kind.startswith("int"))
    if name in ("rmse", "sign"):
        missing = False
    fn, args = calls(name, case["k"], case["per"], case["first"], case["years"] if case["per"] == 12 else 5)
    arrs = arrays(case, missing)
    used = [x[1] for x in args if isinstance(x, tuple) and x[0] == "a"]
    if kind.startswith("2d"):
        per = {"harg": 366}.get(name, case["per"] if used[0] in ("p", "e") else 12)
        if name not in TWO:
            return set()
        for u in used:
            arrs[u] = arrs[u][: arrs[u].size // per * per]
    expected = run(worker, fn, args, arrs)
    other = dict(arrs)
    for u in used:
        if kind.startswith("2d"):
            v = arrs[u].reshape(-1, per)
            other[u] = v if kind == "2d" else Arr(v, "F" if kind == "2dF" else "strided")
        else:
            other[u] = represent(kind, arrs[u], hide)
    if len(used) > 1 and kind == "masked" and case["seed"] % 3 == 0:
        other[used[0]] = arrs[used[0]]  # only one of the arrays masked
    got = run(worker, fn, args, other)
    if isinstance(expected, RemoteError):
        check(is_error(got, expected.kind), "%s with %s arrays: not refused as for plain arrays" % (fn, kind), got=got, expected=expected)
        return {"refused"}
    need_value(got, "%s with %s arrays" % (fn, kind))
    tol = dict(rtol=1e-9, atol=1e-9)
    if kind == "float32":
        tol = dict(rtol=2e-3, atol=2e-3)
    e, g = values(expected), values(got)
    check(e.shape == g.shape, "%s with %s arrays: result of another size" % (fn, kind), got=g.shape, expected=e.shape)
    if kind == "float32" and name in ("gpar", "ppar", "lmom"):
        tol = dict(rtol=1e-2, atol=1e-2)
    same(g, e, "%s with %s arrays" % (fn, kind), **tol)
    out = {kind, name}
    if np.isfinite(e).sum() >= min(5, e.size) and e.size and (kind != "masked" or any(np.isnan(arrs[u]).any() for u in used)):
        out.add("nontrivial")
    return out


# ---------------------------------------------------------------- rejections

BAD_SHAPES = ["0d", "3d", "4d", "3d1", "wide", "narrow", "other366"]
BAD_PERIODS = [None, 12, 366, "monthly", "hourly", 0, Enum_("indices.Distribution.gamma")]
BAD_DISTS = [None, "gamma", "pearson", "normal", 0, Enum_("compute.Periodicity.monthly")]


@test("C24", "shapes", st.tuples(shape_case(sorted(TWO)), st.sampled_from(BAD_SHAPES)), quick=1500)
def shapes(case, worker):
    """Arrays of other dimensionality or with a wrong second axis raise ValueError."""
    case, bad = case
    case = dict(case, per=12, extra=0)
    name = case["name"]
    fn, args = calls(name, case["k"], 12, case["first"], case["years"])
    arrs = arrays(case, False)
    need_value(run(worker, fn, args, arrs), fn)
    used = [x[1] for x in args if isinstance(x, tuple) and x[0] == "a"]
    if name == "spei" or (name in ("spi", "scale") and bad in ("wide", "narrow", "other366")):
        return set()  # any two-dimensional array is flattened
    if bad == "other366" and name in ("gpar", "tgamma", "harg"):
        return set()
    rng = np.random.Generator(np.random.PCG64(case["seed"] + 1))
    per = TWO[name]
    shape = {
        "0d": (), "3d": (case["years"], per, 2), "4d": (2, 3, per, 1), "3d1": (1, case["years"], per),
        "wide": (case["years"], per + 1), "narrow": (case["years"], per - 1), "other366": (case["years"], 378 - per),
    }[bad]
    for u in used:
        arrs[u] = rng.gamma(2.0, 20.0, shape) if shape else np.array(20.0)
    got = run(worker, fn, args, arrs)
    check(is_error(got, "ValueError"), "%s accepted an array of shape %s" % (fn, shape), got=got)
    return {"nontrivial", name, bad}


@test("C24", "divisions", st.tuples(st.integers(0, 5), st.integers(1, 4), st.sampled_from(["same", "flat", "wide", "narrow", "0d", "1d", "3wide", "3narrow", "4d"])), quick=150)
def divisions(case, worker):
    """Reshaping divisions: (divisions, years, 12) is passed through, other shapes raise ValueError."""
    n, years, kind = case
    shape = {
        "same": (n, years, 12), "flat": (n, 12), "wide": (n, 13 + years), "narrow": (n, 12 - years), "0d": (), "1d": (12 * years,),
        "3wide": (n, years, 12 + years), "3narrow": (n, years, 12 - years), "4d": (1, n, years, 12),
    }[kind]
    v = np.arange(float(np.prod(shape))).reshape(shape)
    got = worker.call("utils.reshape_to_divs_years_months", v)
    if kind in ("same", "flat"):
        same(need_array(got, "reshape_to_divs_years_months", shape if kind == "same" else (n, 1, 12)).ravel(), v.ravel(), "reshape_to_divs_years_months", rtol=0, atol=0)
        return {"accepted", "nontrivial"} if n else {"accepted"}
    check(is_error(got, "ValueError"), "reshape_to_divs_years_months accepted an array of shape %s" % (shape,), got=got)
    return {"rejected", "nontrivial"}


@test("C24", "arguments", st.tuples(shape_case(["spi", "spei", "pnp", "gpar", "ppar", "tgamma", "tpear", "scale"]), st.integers(0, 6), st.sampled_from(["period", "dist"])), quick=1000)
def arguments(case, worker):
    """Unsupported periodicity or distribution values raise ValueError."""
    case, which, what = case
    name = case["name"]
    fn, args = calls(name, case["k"], case["per"], case["first"], case["years"] if case["per"] == 12 else 5)
    arrs = arrays(case, False)
    need_value(run(worker, fn, args, arrs), fn)
    bad = BAD_DISTS[which % len(BAD_DISTS)] if what == "dist" else BAD_PERIODS[which]
    swap = (GAMMA, PEARSON) if what == "dist" else (MONTHLY, DAILY)
    args = [bad if isinstance(x, Enum_) and x in swap else x for x in args]
    if what == "dist" and name not in ("spi", "spei"):
        return set()
    got = run(worker, fn, args, arrs)
    check(is_error(got, "ValueError"), "%s accepted %s %r" % (fn, what, getattr(bad, "path", bad)), got=got)
    return {"nontrivial", name, what}


@test("C24", "sizes", st.tuples(shape_case(["spei", "pdsi", "harg", "sign"]), st.sampled_from([-12, -1, 1, 12, 366]), st.integers(0, 2), st.booleans()), quick=700)
def sizes(case, worker):
    """Arrays of different sizes that belong together raise ValueError."""
    case, delta, which, missing = case
    name = case["name"]
    fn, args = calls(name, case["k"], case["per"], case["first"], case["years"] if case["per"] == 12 else 5)
    arrs = arrays(case, missing and name != "sign")
    used = [x[1] for x in args if isinstance(x, tuple) and x[0] == "a"]
    need_value(run(worker, fn, args, arrs), fn)
    u = used[which % len(used)]
    v = arrs[u]
    if abs(delta) == 1 and case["seed"] % 3 == 0:
        delta = 1 - v.size  # a single value
    arrs[u] = v[:delta] if delta < 0 else np.concatenate([v, v[:delta]]) if delta < v.size else np.concatenate([v, v])
    if np.isnan(arrs[used[0]]).all():
        return {"all missing"}  # may come back as it is before anything else is looked at
    got = run(worker, fn, args, arrs)
    check(is_error(got, "ValueError"), "%s accepted arrays of different sizes" % fn, got=got)
    return {"nontrivial", name}


@test("C24", "latitude", st.tuples(shape_case(["thorn", "harg", "pet"]), st.sampled_from([90.001, -90.001, 100.0, -91.0, 180.0, 1e9, float("nan"), None])), quick=300)
def latitude(case, worker):
    """Impossible latitudes raise ValueError (an absent one for indices.pet only)."""
    case, lat = case
    name = case["name"]
    if name != "pet" and (lat is None or lat != lat):
        return set()
    fn, args = calls(name, 0, 12, case["first"], case["years"])
    arrs = arrays(dict(case, per=12), False)
    need_value(run(worker, fn, args, arrs), fn)
    got = run(worker, fn, [lat if x == 40.0 and isinstance(x, float) else x for x in args], arrs)
    check(is_error(got, "ValueError"), "%s accepted latitude %r" % (fn, lat), got=got)
    return {"nontrivial", name}


LATITUDES = [90.0, -90.0, 0.0, 89.999, -89.999, 66.56, -66.56, 23.45, 1e-12]


def latitude_of(rng):
    """Any latitude, a special one in a third of the cases."""
    if rng.random() < 0.33:
        return float(rng.choice(LATITUDES))
    return float(np.round(rng.uniform(-90, 90), 1))


@test("C24", "latitudes", st.tuples(shape_case(["thorn", "harg", "pet", "pet"]), st.one_of(st.sampled_from(LATITUDES), st.floats(-90, 90), st.integers(-90, 90)), st.sampled_from(["float", "int", "array", "array2"])), quick=600)
def latitudes(case, worker):
    """Every latitude from pole to pole is accepted; its representation does not matter."""
    case, lat, form = case
    name = case["name"]
    fn, args = calls(name, 0, 12, case["first"], case["years"])
    arrs = arrays(dict(case, per=12), False)
    put = lambda x: [x if a == 40.0 and isinstance(a, float) else a for a in args]
    expected = need_value(run(worker, fn, put(float(lat)), arrs), "%s at latitude %r" % (fn, lat))
    check(bool(np.isfinite(values(expected)).all()), "%s at latitude %r: values missing" % (fn, lat), got=expected)
    out = {name, "nontrivial"}
    if float(lat) in LATITUDES or abs(lat) == 90:
        out.add("special")
    if form == "int" and float(lat).is_integer():
        other = int(lat)
    elif form.startswith("array") and name == "pet":
        other = np.full((3, 4) if form == "array2" else 5, float(lat))
    else:
        return out
    got = need_value(run(worker, fn, put(other), arrs), "%s at latitude %r given as %s" % (fn, lat, form))
    same(values(got), values(expected), "%s at latitude %r given as %s" % (fn, lat, form), rtol=1e-9, atol=1e-9)
    return out | {form}


# ---------------------------------------------------------------- well-formed calls

MAGNITUDES = ["normal", "normal", "tiny", "huge", "mixed", "two", "negative", "zeros"]


@st.composite
def formed(draw):
    per = draw(st.sampled_from([12] * 7 + [366]))
    return {
        "name": draw(st.sampled_from(["spi", "spi", "spei", "pnp", "pet", "gpar", "ppar", "tgamma", "tpear", "scale", "sum", "pdsi", "harg", "pci"])),
        "k": draw(st.integers(0, 3)),
        "per": per,
        "n": draw(st.integers(0, 200) if per == 12 else st.integers(0, 1500)),
        "nan": draw(st.sampled_from(gen.NAN_PATTERNS)),
        "mag": draw(st.sampled_from(MAGNITUDES)),
        "seed": draw(st.integers(0, 2**32 - 1)),
        "first": draw(gen.start_years),
        "scale": draw(st.sampled_from([1, 2, 3, 12, 50, 400])),
    }


@test("C24", "well_formed", formed(), quick=4000)
def well_formed(case, worker):
    """Well-formed calls complete, or are refused for a stated reason."""
    rng = np.random.Generator(np.random.PCG64(case["seed"]))
    name, per, n, first = case["name"], case["per"], case["n"], case["first"]
    v = rng.gamma(2.0, 40.0, n)
    mag = case["mag"]
    if mag == "tiny":
        v *= 1e-9
    elif mag == "huge":
        v *= 1e9
    elif mag == "mixed":
        v = 10.0 ** rng.uniform(-6, 6, n)
    elif mag == "two":
        v = rng.choice([0.0, 5.0, 7.0], n)
    elif mag == "negative":
        v = v - 60.0
    elif mag == "zeros":
        v = np.where(rng.random(n) < 0.7, 0.0, v)
    v = gen.punch(v, case["nan"], per, case["seed"]) if n else v
    period = MONTHLY if per == 12 else DAILY
    years = max(1, -(-n // per))
    dist = GAMMA if case["k"] % 2 else PEARSON
    cal = [[first, first + years - 1], [first, first], [first - 3, first + 500], [first + years - 1, first + years - 1]][case["k"] if case["seed"] % 2 else 0]
    window = gen.effective_window(first, n, per, cal)
    scale = case["scale"]
    kind = "gamma" if dist is GAMMA else "pearson"
    reject, out = False, {name, mag}
    if n == 0:
        out.add("empty")
    if name == "spi":
        series = ref.clip_negatives(v)
        fn, args = "indices.spi", [v, scale, dist, first, *cal, period]
    elif name == "spei":
        e = rng.uniform(0, 100, n)
        series = ref.clip_negatives(v) - e + 1000.0
        fn, args = "indices.spei", [v, e, scale, dist, period, first, *cal]
    elif name in ("gpar", "ppar", "tgamma", "tpear"):
        if mag == "negative":
            v = np.abs(v)
        series, scale = v, 1
        kind = "gamma" if name in ("gpar", "tgamma") else "pearson"
        fn = {"gpar": "compute.gamma_parameters", "ppar": "compute.pearson_parameters", "tgamma": "compute.transform_fitted_gamma", "tpear": "compute.transform_fitted_pearson"}[name]
        args = [v, first, *cal, period]
    elif name == "pnp":
        if n < per:
            return out
        fn, args = "indices.percentage_of_normal", [v, scale, first, first, first + n // per - 1, period]
        series = None
    elif name == "scale":
        fn, args, series = "compute.scale_values", [v, scale, period], None
    elif name == "sum":
        fn, args, series = "compute.sum_to_scale", [v, scale], None
    elif name == "pet":
        v = v / 8.0 - 3.0 if mag in ("normal", "zeros", "negative") else np.clip(v, 0, 40.0)
        if n and not np.isnan(v).all() and (n < 12 or np.isnan(ref.by_year(v, 12)).all(axis=0).any()):
            return out
        fn, args, series = "indices.pet", [v, latitude_of(rng), first], None
    elif name == "harg":
        hi = v + rng.uniform(0, 20, n)
        fn, args, series = "eto.eto_hargreaves", [v, hi, (v + hi) / 2, latitude_of(rng)], None
    elif name == "pci":
        w = np.resize(np.abs(np.nan_to_num(v)) + 1.0, 365 + case["seed"] % 2) if n else np.ones(365)
        fn, args, series = "indices.pci", [w], None
    else:
        # Palmer: at least one complete calibration year
        if n < 12:
            return out
        w = rng.gamma(1.0, 4.0, n)
        if case["k"]:
            w[n - min(n - 12, case["k"] * 5):] = np.nan
        fn, args, series = "palmer.pdsi", [w, rng.uniform(0, 8, n), [0.5, 1.0, 4.0, 9.0][case["k"]], first, first, first], None
    if series is not None and kind == "pearson" and n:
        table = ref.by_year(ref.sliding_sums(series, scale), per)
        code = ref.pearson_fit(table, first, window)[4]
        reject = bool((code >= 2).any())
    got = worker.call(fn, *args)
    if reject and is_error(got, "ValueError"):
        return out | {"no spread"}
    need_value(got, fn)
    if np.isfinite(values(got)).any():
        out.add("nontrivial")
    return out
