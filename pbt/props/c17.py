"""C17 library calls do not modify their inputs and keep no state."""
import numpy as np
from hypothesis import strategies as st

import gen
import ref
from client import DAILY, GAMMA, MONTHLY, PEARSON
from codec import Arr, Ref, RemoteError
from harness import check, fail, plain, test
from props import c03

RULE = (
    "A case is a pool of shared arrays and parameter dictionaries (monthly and daily precipitation with zeros, "
    "negatives and missing values, PET, temperatures, tables of sums, fitting parameters, Palmer inputs) and a history "
    "of calls on them in one process, earlier results also serving as inputs, near twins of the arrays (two values or "
    "years swapped, one value changed, scaled), other start years, and values the caller writes into an array between two "
    "calls. Every array and dictionary of the pool is compared with its original afterwards, every result with its value when it was returned, and with the "
    "result of the same call made alone in a fresh process. Non-trivial: at least three calls returned values "
    "and at least two of them share an array."
)
ASSUMPTIONS = ["results are compared to 1e-9, so that the memory alignment of a copy does not count as state"]

OPS = [
    "spi", "spi", "spi", "spei", "spei", "pnp", "pet", "pet", "thorn", "sum", "gpar", "ppar", "tgamma", "tgamma", "tpear",
    "scale", "pdsi", "pdsi", "spi_fit", "spei_fit", "spi_old", "pdsi_fit", "harg", "pci", "lmom", "to366", "togreg",
    "edit", "edit", "resh2", "resh3", "counts", "rmse", "sign", "valid", "tol", "spi_res", "tgamma_fit", "tpear_fit", "days",
]


TWINS = {"p1": "p1_", "e": "e_", "t": "t_", "table": "table_", "q": "q_", "qe": "qe_", "tmin": "tmin_", "tmax": "tmax_", "g": "g_", "d366": "d366_", "col": "col_"}


def twin(x, kind, per):
    """Another array of the same size and nearly the same content."""
    y = np.array(x, float)
    f = y.reshape(-1)
    if kind == "years" and f.size >= 4 * per:
        f[per:2 * per], f[2 * per:3 * per] = f[2 * per:3 * per].copy(), f[per:2 * per].copy()
    elif kind == "one":
        i = f.size // 2
        f[i] = 17.5 if np.isnan(f[i]) else f[i] + 3.0
    elif kind == "scaled":
        f *= 1.5
    else:
        i, j = f.size // 3, f.size // 3 + min(5, f.size // 2)
        f[i], f[j] = f[j], f[i]
    return y


AGAIN = ["spi", "spei", "pnp", "pet", "thorn", "sum", "gpar", "ppar", "tgamma", "tpear", "scale", "pdsi", "spi_fit", "spei_fit", "pdsi_fit", "harg", "pci", "lmom", "to366", "togreg", "counts", "rmse", "sign"]
EDITED = {"spi": 7, "spi_fit": 7, "gpar": 1, "ppar": 1, "tgamma": 1, "tpear": 1, "pet": 2, "thorn": 2, "pdsi": 3, "pdsi_fit": 3, "lmom": 5, "to366": 6, "pci": 6}


def again(seeds):
    """One operation again and again: on the near twin of its array, with a start year and place close by
    (bits 3 and 4 of the integer), and after the caller wrote into the array."""
    rng = np.random.Generator(np.random.PCG64(seeds))
    pick = lambda x: x[int(rng.integers(len(x)))]
    op, low = pick(AGAIN), int(rng.integers(8))
    if rng.random() < 0.4:
        ops = [[op, low], ["edit", EDITED.get(op, 0)], [op, low]]
    else:
        ops = [[op, low + x] for x in [int(x) for x in rng.permutation([0, 8, 16, 24])][: 2 + int(rng.integers(3))]]
    for _ in range(int(rng.integers(3))):
        other = pick([["edit", EDITED.get(op, 0)], [op, (low + 1) % 8], [op, low], [pick(AGAIN), low]])
        ops.insert(int(rng.integers(len(ops) + 1)), list(other))
    return ops


@st.composite
def case(draw, daily):
    case = draw(plan(daily))
    if draw(st.sampled_from([False, True, True])):
        case["ops"] = again([draw(st.integers(0, 2**32 - 1)), case["seed"], case["rec"]["seed"]])
    return case


@st.composite
def plan(draw, daily):
    per = 366 if daily else 12
    if daily:
        rec = draw(gen.record(per=366, min_years=4, max_years=5))
    else:
        rec = draw(gen.record(per=12, min_years=4, max_years=15))
    return {
        "rec": rec,
        "all": draw(st.sampled_from(["", "", "", "", "", "nan", "zero", "masked"])),
        "pet": draw(c03.pets),
        "seed": draw(st.integers(0, 2**32 - 1)),
        "two": draw(st.booleans()),
        "readonly": draw(st.sampled_from([False, False, False, True])),
        "first": draw(st.sampled_from([1950, 1996, 2000])),
        "frost": draw(st.booleans()),
        "ops": draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 31)).map(list), min_size=2, max_size=9)),
        "twin": draw(st.sampled_from(["years", "values", "one", "scaled"])),
    }


def pool(case):
    rec = case["rec"]
    per, n = rec["per"], rec["n"]
    rng = np.random.Generator(np.random.PCG64(case["seed"]))
    p = gen.build(rec)
    if case["all"] == "nan":
        p[:] = np.nan
    if case["all"] == "zero":
        p[:] = 0.0
    e = c03.build_pet(case["pet"], n, per)
    t = (2.0 if case["frost"] else 15.0) + 12.0 * np.sin(np.arange(48) * np.pi / 6) + rng.normal(0, 2, 48)
    t[rng.random(48) < 0.05 * (case["seed"] % 2)] = np.nan
    table = ref.by_year(ref.sliding_sums(ref.clip_negatives(p), 1 + case["seed"] % 3), per)
    tmin = rng.uniform(-5, 15, 400)
    g = rng.gamma(1.0, 5.0, 366 + 365)
    if case["seed"] % 3 == 0:
        g[100:103] = np.nan
    # an unlikely draw: a column without values to fit gives zero or missing parameters
    alpha, beta = rng.uniform(0.5, 5, per), rng.uniform(1, 40, per)
    q = rng.gamma(1.5, 2.0, 120)
    q[5] = -1.0
    if case["seed"] % 2:
        q[115:] = np.nan
    items = {
        "p": p.reshape(-1, per) if case["two"] and n % per == 0 else p,
        "p1": p.copy(),
        "e": e,
        "t": t.reshape(-1, 12) if case["two"] else t,
        "table": table,
        "tmin": tmin, "tmax": tmin + rng.uniform(0, 15, 400), "tmean": tmin + rng.uniform(0, 9, 400),
        "g": g[:366] if case["two"] else g,
        "d366": rng.gamma(1.0, 5.0, 732),
        "col": rng.gamma(2.0, 10.0, 30),
        "q": q, "qe": rng.uniform(0, 6, 120),
        "m12": rng.gamma(1.0, 5.0, (5, 12)),
        "lat": np.array([10.0, 10.25, 10.75, 11.5]),
    }
    for name, other in TWINS.items():
        items[other] = twin(items[name], case["twin"], 12 if name in ("t", "q", "qe") else per)
    if case["all"] == "masked":
        m = np.zeros(items["p"].shape, bool)
        m.ravel()[:: 7] = True
        items["p"] = np.ma.MaskedArray(items["p"], mask=m)
    params = {
        "fg": {"alpha": alpha, "beta": beta},
        "fp": {"prob_zero": rng.uniform(0, 0.3, per), "loc": rng.uniform(10, 60, per), "scale": rng.uniform(5, 30, per), "skew": rng.uniform(-2, 2, per)},
        "fo": {"alphas": alpha.copy(), "betas": beta.copy()},
        "fop": {"probabilities_of_zero": rng.uniform(0, 0.3, per), "locs": rng.uniform(10, 60, per), "scales": rng.uniform(5, 30, per), "skews": rng.uniform(-2, 2, per)},
        "fc": {k: rng.uniform(0.2, 1.0, 12) for k in ("alpha", "beta", "gamma", "delta")},
    }
    return items, params


def describe(case, op, k, history):
    """The call (fn, args, kwargs) of an operation with the small integer k; None if not applicable."""
    per = case["rec"]["per"]
    period = MONTHLY if per == 12 else DAILY
    f = case["first"] + (k // 16 % 2) * (1 + case["seed"] % 3)
    R = lambda name: Ref(TWINS.get(name, name) if k // 8 % 2 else name)
    near = (k // 16 % 2) * [0.004, 0.04, 0.4][case["seed"] % 3]  # a second latitude, water capacity or period close by
    k = k % 8
    years = -(-case["rec"]["n"] // per)
    cal = [(f, f + years - 1), (f + 1, f + years - 2), (f - 5, f + 60)][k % 3]
    dist = GAMMA if k % 2 else PEARSON
    scale = [1, 1, 2, 3, 6, 1, 12, 1][k]
    p = Ref("p") if k < 6 else R("p1")
    if op == "edit":
        name = ["p1", "table", "t", "q", "e", "col", "g", "p" if case["all"] != "masked" else "p1"][k]
        return "@edit", [name], [name]
    if op == "spi":
        return "indices.spi", [p, scale, dist, f, *cal, period], ["p"]
    if op == "spi_fit":
        return "indices.spi", [p, scale, dist, f, *cal, period, R("fg" if k % 2 else "fp")], ["p"]
    if op == "spi_old":
        return "indices.spi", [p, scale, dist, f, *cal, period, R("fo" if k % 2 else "fop")], ["p"]
    if op == "spei":
        return "indices.spei", [R("p1"), R("e"), scale, dist, period, f, *cal], ["p", "e"]
    if op == "spei_fit":
        return "indices.spei", [R("p1"), R("e"), scale, dist, period, f, *cal, R(["fp", "fg", "fop", "fo"][k % 4])], ["p", "e"]
    if op == "pnp":
        return "indices.percentage_of_normal", [R("p1"), scale, f, f, f + years - 2, period], ["p"]
    if op == "pet":
        return "indices.pet", [R("t"), [45.0, 0.0, -70.0, 90.0][k % 4] - near, f], ["t"]
    if op == "thorn":
        return "eto.eto_thornthwaite", [R("t"), [45.0, 0.0, -70.0, 60.0][k % 4] - near, f], ["t"]
    if op == "sum":
        return "compute.sum_to_scale", [R("p1"), scale], ["p"]
    if op == "gpar":
        return "compute.gamma_parameters", [R("table" if k % 2 else "p1"), f, *cal, period], ["table"]
    if op == "ppar":
        return "compute.pearson_parameters", [R("table" if k % 2 else "p1"), f, *cal, period], ["table"]
    if op == "tgamma":
        return "compute.transform_fitted_gamma", [R("table" if k % 2 else "p1"), f, *cal, period], ["table"]
    if op == "tpear":
        return "compute.transform_fitted_pearson", [R("table" if k % 2 else "p1"), f, *cal, period], ["table"]
    if op == "tgamma_fit":
        return "compute.transform_fitted_gamma", [R("table"), f, *cal, period, R("alpha"), R("beta")], ["table"]
    if op == "tpear_fit":
        return "compute.transform_fitted_pearson", [R("table"), f, *cal, period, R("prob"), R("loc"), R("scale"), R("skew")], ["table"]
    if op == "scale":
        return "compute.scale_values", [R("p1"), scale, period], ["p"]
    if op == "pdsi":
        return "palmer.pdsi", [R("q"), R("qe"), [0.5, 2.0, 6.0][k % 3] + near, f, f + k % 2, f + 6], ["q"]
    if op == "pdsi_fit":
        return "palmer.pdsi", [R("q"), R("qe"), 4.0, f, f, f + 5, R("fc")], ["q"]
    if op == "harg":
        return "eto.eto_hargreaves", [R("tmin"), R("tmax"), R("tmean"), [45.0, -70.0][k % 2] - near], ["tmin"]
    if op == "pci":
        return "indices.pci", [R("g")], ["g"]
    if op == "lmom":
        return "lmoments.fit", [R("col")], ["col"]
    if op == "to366":
        return "utils.transform_to_366day", [R("g"), 2000, 1 if case["two"] else 2], ["g"]
    if op == "togreg":
        return "utils.transform_to_gregorian", [R("d366"), 1999 + k % 3], ["d366"]
    if op == "resh2":
        return "utils.reshape_to_2d", [R("p1"), per], ["p"]
    if op == "resh3":
        return "utils.reshape_to_divs_years_months", [R("m12")], ["m12"]
    if op == "counts":
        return "utils.count_zeros_and_non_missings", [R("col" if k % 2 else "p1")], ["col"]
    if op == "rmse":
        return "utils.rmse", [R("tmin"), R("tmax")], ["tmin"]
    if op == "sign":
        return "utils.sign_change", [R("tmin"), R("tmean")], ["tmin"]
    if op == "valid":
        return "utils.is_data_valid", [p], ["p"]
    if op == "tol":
        return "utils.get_tolerance", [R("lat")], ["lat"]
    if op == "days":
        return "utils.compute_days", [1900 + k, 20 + k], ["days"]
    if op == "spi_res":  # standardise an earlier result of the right kind
        for i in range(len(history) - 1, -1, -1):
            if history[i][0] in ("sum", "pnp", "spi"):
                return "indices.spi", [R("r%d" % i), 1, GAMMA, f, *cal, period], ["p"]
        return None
    raise ValueError(op)


def eq(a, b, tol):
    """Equal values, exactly or to a tolerance, for nested results."""
    if isinstance(a, RemoteError) or isinstance(b, RemoteError):
        return isinstance(a, RemoteError) and isinstance(b, RemoteError) and a.kind == b.kind
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(eq(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(eq(a[k], b[k], tol) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape or a.dtype != b.dtype:
            return False
        if isinstance(a, np.ma.MaskedArray) != isinstance(b, np.ma.MaskedArray):
            return False
        if isinstance(a, np.ma.MaskedArray) and not np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b)):
            return False
        a, b = np.ma.getdata(a), np.ma.getdata(b)
        if a.dtype.kind != "f":
            return np.array_equal(a, b)
        if not tol:
            return np.array_equal(a, b, equal_nan=True)
        return np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= tol * (1 + abs(a))
    return a == b


def wrapped(case, x):
    return Arr(x, "C", True) if case["readonly"] and not isinstance(x, np.ma.MaskedArray) else x


@test("C17", "history", st.one_of(*[case(False)] * 7, case(True)), quick=600)
def history(case, worker):
    """Histories of calls on shared arrays, in one process and each call alone."""
    items, params = pool(case)
    per = case["rec"]["per"]
    puts = [{"fn": "@put", "args": [k, wrapped(case, x)]} for k, x in items.items()]
    for name, d in params.items():
        puts.append({"fn": "@put", "args": [name, d]})
    alias = {"alpha": params["fg"]["alpha"], "beta": params["fg"]["beta"], "prob": params["fp"]["prob_zero"],
             "loc": params["fp"]["loc"], "scale": params["fp"]["scale"], "skew": params["fp"]["skew"]}
    puts += [{"fn": "@put", "args": [k, x]} for k, x in alias.items()]
    shared = dict(items, **params, **alias)
    calls, done, groups = [], [], []
    states, state = [], dict(shared)  # content of the arrays when each call is made
    for op, k in case["ops"]:
        c = describe(case, op, k, done)
        if c is None or (op == "edit" and case["readonly"]):
            continue
        if op == "edit":
            name = c[1][0]
            state = dict(state)
            state[name] = twin(state[name], ["values", "one"][len(calls) % 2], per).astype(state[name].dtype)
            c = (c[0], [name, state[name]], c[2])
        done.append((op, k))
        groups.append(c[2])
        states.append(state)
        calls.append({"fn": c[0], "args": c[1], "keep": "r%d" % len(calls)})
    if len([c for c in calls if c["fn"] != "@edit"]) < 2:
        return set()
    edits = any(c["fn"] == "@edit" for c in calls)
    real = [i for i, c in enumerate(calls) if c["fn"] != "@edit"]
    # a call that takes an earlier result is not repeated alone, its input being a copy of that result
    gets = [{"fn": "@get", "args": [k]} for k in shared]
    batch = puts + calls + [dict(calls[real[0]], keep="again")] + gets
    uses = [i for i in real if not any(isinstance(a, Ref) and a.name[0] == "r" and a.name[1:].isdigit() for a in calls[i]["args"])]

    def before(i):  # the arrays as they are when call i is made
        return puts + [{"fn": "@put", "args": [k, wrapped(case, x)]} for k, x in states[i].items() if x is not shared[k]]

    starts = [before(i) for i in uses]
    alone = [start + [calls[i]] + gets for start, i in zip(starts, uses)]
    first = worker.isolated([batch + []] + alone)
    main, singles = first[0], first[1:]
    n = len(puts)
    results = [r.get("error", r.get("value")) for r in main[n:n + len(calls)]]
    again = main[n + len(calls)]
    trace = ["%s(%s)" % (c["fn"], ", ".join(a.name if isinstance(a, Ref) else "..." if isinstance(a, np.ndarray) else str(getattr(a, "path", a)) for a in c["args"])) for c in calls]
    for i, start, single in zip(uses, starts, singles):
        for k, r in zip(shared, single[len(start) + 1:]):
            check(eq(r["value"], states[i][k], 0), "a call changed its input", argument=k, call=trace[i])
    for k, r in zip(shared, main[n + len(calls) + 1:]):
        check(eq(r["value"], state[k], 0), "an input changed during the history", argument=k, calls=trace)
    for i, start, single in zip(uses, starts, singles):
        r = single[len(start)]
        check(eq(results[i], r.get("error", r.get("value")), 1e-9), "a result depends on the calls made before it", call=trace[i], calls=trace[: i + 1])
    if states[real[0]] is state:
        check(eq(again.get("error", again.get("value")), results[real[0]], 1e-9), "repeating the first call at the end gives another result", calls=trace)
    # (a result may be the input itself: none of this when the caller writes into arrays)
    # results as they were when returned, and as they are after the later calls
    if not edits:
        kept = [{"fn": "@get", "args": ["r%d" % i]} for i, r in enumerate(results) if not isinstance(r, RemoteError)]
        late = worker.isolated([puts + calls + [dict(calls[-1])] + kept])[0][n + len(calls) + 1:]
        for g, r in zip(kept, late):
            i = int(g["args"][0][1:])
            check(eq(r["value"], results[i], 1e-9), "a returned result changed afterwards", call=trace[i], calls=trace)
    out = {op for op, _ in done}
    ok = [g for g, r in zip(groups, results) if not isinstance(r, RemoteError)]
    flat = [x for g in ok for x in g]
    if len(ok) >= 3 and len(flat) > len(set(flat)):
        out.add("nontrivial")
    if case["readonly"]:
        out.add("read-only arrays")
    if edits:
        out.add("written between calls")
    if any(k & 8 for _, k in done):
        out.add("near twins")
    errors = [op for (op, _), r in zip(done, results) if isinstance(r, RemoteError)]
    out |= {"error " + op for op in errors}
    return out
