"""C22 saved SPI fitting parameters are correct and reload to the same SPI."""
import numpy as np
from hypothesis import strategies as st

import clicase as cc
import gen
from client import DAILY, MONTHLY
from harness import check, is_error, plain, same, test
from props import c21
from props.c18 import tolerance

RULE = (
    "A case is a generated grid and a history of spi command runs in one process: computing and saving the "
    "parameters for a list of scales, possibly runs that fit other precipitation of the grid, then loading them with the same or other scales of the list, other "
    "calibration years, worker settings and the same or other precipitation on that grid; or a run with "
    "contradictory or unusable parameter options. Non-trivial: saved parameters were compared in at least 24 "
    "entries and a run with loaded parameters was compared, or a rejection was due."
)
ASSUMPTIONS = c21.ASSUMPTIONS + ["a loaded parameter file comes from the same grid"]

NAMES = {"gamma": ["alpha", "beta"], "pearson": ["prob_zero", "loc", "scale", "skew"]}


@st.composite
def case(draw, daily=False):
    lay = draw(c21.grid(daily))
    lay["rows"] = min(lay["rows"], 5)
    listed = draw(c21.scales(daily))
    loads = []
    for _ in range(draw(st.integers(1, 2)) if not daily else 1):
        loads.append({
            "scales": draw(st.lists(st.sampled_from(listed), min_size=1, max_size=len(listed), unique=True)),
            "cal": draw(c21.calibration(lay)),
            "other": draw(st.sampled_from([None, None, 1, 77])),
            # a run that fits its own parameters, between saving and loading
            "before": draw(st.sampled_from([None, 2, 78])),
            **draw(c21.options()),
        })
    return {
        "lay": lay,
        "cal": draw(c21.calibration(lay)),
        "save": {"scales": listed, **draw(c21.options())},
        "overwrite": draw(st.sampled_from([None, None, "flag", "replace"])),
        "loads": loads,
    }


def other_precip(lay, k):
    return cc.series(dict(lay, seed=lay["seed"] + k, climates=["seasonal", "gamma"]), "precip")


def parameters(worker, lay, scale, dist, cal, precip):
    """Library parameters per cell, list of arrays per cell, or an error."""
    out = []
    daily = lay["per"] != 12
    for v in precip:
        v = np.array(v, dtype=float)
        if daily:
            v = worker.call("utils.transform_to_366day", v, lay["first"], lay["years"])
        p = DAILY if daily else MONTHLY
        scaled = worker.call("compute.scale_values", v, scale, p)
        if is_error(scaled):
            return scaled
        r = worker.call("compute.%s_parameters" % dist, scaled, lay["first"], cal[0], cal[1], p)
        if is_error(r):
            return r
        out.append([plain(x) for x in r])
    return out


def decide(case, worker):
    lay, cal = case["lay"], case["cal"]
    precip = cc.series(lay, "precip")
    per = 12 if lay["per"] == 12 else 366
    cells = lay["rows"] * lay["cols"]
    params, fitting = {}, {}
    for scale in case["save"]["scales"]:
        for dist in ("gamma", "pearson"):
            p = parameters(worker, lay, scale, dist, cal, precip)
            if is_error(p):
                return {"rejected by the library"}
            params[scale, dist] = p
            fitting[scale, dist] = [
                dict(zip(NAMES[dist], [np.broadcast_to(x, (per,)).copy() for x in cell])) for cell in p
            ]
    want = c21.spi_files(worker, lay, cal, case["save"]["scales"], precip, "out")
    if want is None:
        return {"rejected by the library"}
    steps = [cc.nc_file(lay, "in.nc", {"prcp": (precip, "mm")})]
    more = ["--save_params", "{d}/fit.nc"]
    if case["overwrite"] == "replace":
        steps.append({"op": "text", "path": "fit.nc", "content": "not a NetCDF file"})
        more.append("--overwrite")
    elif case["overwrite"] == "flag":
        more.append("--overwrite")
    saved_at = len(steps)
    steps.append(c21.step(lay, cal, case["save"], "in.nc", "out", more))
    wants, where = [], []
    for k, load in enumerate(case["loads"]):
        data = precip
        path = "in.nc"
        if load["other"] is not None:
            data = other_precip(lay, load["other"])
            path = "in%d.nc" % k
            steps.append(cc.nc_file(lay, path, {"prcp": (data, "mm")}))
        w = c21.spi_files(worker, lay, cal, load["scales"], data, "load%d" % k, fitting=fitting)
        if w is None:
            return {"rejected by the library"}
        if load["before"] is not None:
            steps.append(cc.nc_file(lay, "before%d.nc" % k, {"prcp": (other_precip(lay, load["before"]), "mm")}))
            steps.append(c21.step(lay, load["cal"], load, "before%d.nc" % k, "before%d" % k))
        wants.append(w)
        where.append(len(steps))
        steps.append(c21.step(lay, load["cal"], load, path, "load%d" % k, ["--load_params", "{d}/fit.nc"]))
    report = worker.cli(steps)

    # the run that saved the parameters
    r = report[saved_at]
    if case["overwrite"] == "replace":
        check(r.get("ok") is True, "saving over an existing file with --overwrite failed", error=r.get("error"))
        check(r["modified"] == ["fit.nc"], "the existing parameter file was not replaced", modified=r["modified"])
        r = dict(r, modified=[])
        c21.compare(lay, r, want, "spi command saving parameters")
    else:
        c21.compare(lay, r, want, "spi command saving parameters", more=["fit.nc"])
    f = r["files"]["fit.nc"]
    check("error" not in f, "the saved parameter file cannot be read", error=f.get("error"))
    expected_vars = sorted("%s_%d_%s" % (name, s, c21.unit(lay)) for s in case["save"]["scales"] for names in NAMES.values() for name in names)
    check(sorted(f["vars"]) == expected_vars, "saved parameter variables", got=sorted(f["vars"]), expected=expected_vars)
    compared = 0
    tol = tolerance(lay)
    for (scale, dist), cells_p in params.items():
        for k, name in enumerate(NAMES[dist]):
            v = f["vars"]["%s_%d_%s" % (name, scale, c21.unit(lay))]
            check(v["dims"] == ["lat", "lon", c21.unit(lay)], "dimensions of the saved parameters", got=v["dims"])
            expected = np.array([np.broadcast_to(cell[k], (per,)) for cell in cells_p]).reshape(lay["rows"], lay["cols"], per)
            # float32 input: tiny differences of Feb 29 values can change a fit noticeably
            same(v["values"], expected, "saved %s of scale %d" % (name, scale), rtol=max(tol, 1e-9) * (100 if tol > 1e-6 else 1), atol=tol)
            compared += int(np.isfinite(expected).sum())
    for name in ("lat", "lon"):
        same(f["coords"][name]["values"], cc.coords(lay)[name]["values"], "coordinate %s of the saved parameters" % name)

    # runs with loaded parameters
    for i, w in enumerate(wants):
        load = case["loads"][i]
        c21.compare(lay, report[where[i]], w, "spi command loading parameters (scales %s, calibration %s)" % (load["scales"], load["cal"]))
    out = {"daily" if lay["per"] != 12 else "monthly"}
    if any(load["other"] is not None for load in case["loads"]):
        out.add("other precipitation")
    if any(load["before"] is not None for load in case["loads"]):
        out.add("another fit between saving and loading")
    if any(load["scales"] != case["save"]["scales"] for load in case["loads"]):
        out.add("other scales")
    if compared >= 24 and any(cc.informative(v) for w in wants for _, v in w.values()):
        out.add("nontrivial")
    return out


@test("C22", "monthly", case(), quick=94, cli=True)
def monthly(case, worker):
    """Saved monthly parameters equal the library's, and loading them gives the library SPI."""
    return decide(case, worker)


@test("C22", "daily", case(daily=True), quick=17, cli=True)
def daily(case, worker):
    """Saved daily parameters equal the library's, and loading them gives the library SPI."""
    return decide(case, worker)


@st.composite
def invalid(draw):
    lay = draw(cc.layout(kinds=("grid",), max_rows=2, max_cols=2, min_years=5, max_years=6, partial=False))
    lay["climates"] = ["gamma"]
    lay["nans"] = ["none"]
    return {
        "lay": lay,
        "scales": draw(st.lists(st.integers(1, 6), min_size=1, max_size=2, unique=True)),
        "what": draw(st.sampled_from(["both", "both_absent", "absent", "no_scale", "no_variable", "other_periodicity", "exists", "exists_text", "not_netcdf"])),
        "drop": draw(st.integers(0, 5)),
        "dropped_scale": draw(st.integers(0, 1)),
        **draw(c21.options()),
    }


@test("C22", "rejects", invalid(), quick=144, cli=True)
def rejects(case, worker):
    """Contradictory or unusable parameter options fail and touch no file."""
    lay, what = case["lay"], case["what"]
    cal = [lay["first"], lay["first"] + lay["years"] - 1]
    steps = [cc.nc_file(lay, "in.nc", {"prcp": (cc.series(lay, "precip"), "mm")})]
    run = {"scales": case["scales"], "multi": case["multi"], "cpus": case["cpus"]}
    listed = list(case["scales"])
    unit = "month"
    skip = None
    if what == "no_scale":
        listed.remove(case["scales"][min(case["dropped_scale"], len(listed) - 1)])
    if what == "other_periodicity":
        unit = "day"
    names = [n for d in NAMES.values() for n in d]
    if what == "no_variable":
        skip = "%s_%d_month" % (names[case["drop"]], case["scales"][min(case["dropped_scale"], len(listed) - 1)])
    per = 12 if unit == "month" else 366
    rng = np.random.Generator(np.random.PCG64(lay["seed"]))
    variables = {}
    for s in listed:
        for n in names:
            var = "%s_%d_%s" % (n, s, unit)
            if var != skip:
                variables[var] = {"dims": ["lat", "lon", unit], "values": rng.uniform(0.5, 2.0, (lay["rows"], lay["cols"], per))}
    if not variables:
        variables["unrelated"] = {"dims": ["lat"], "values": np.zeros(lay["rows"])}
    c = {k: v for k, v in cc.coords(lay).items() if k != "time"}
    c[unit] = {"values": np.arange(per)}
    write = {"op": "write", "file": {"path": "fit.nc", "coords": c, "vars": variables}}
    if what in ("both", "no_scale", "no_variable", "other_periodicity", "exists"):
        steps.append(write)
    if what in ("exists_text", "not_netcdf"):
        steps.append({"op": "text", "path": "fit.nc", "content": "something else"})
    more = {
        "both": ["--load_params", "{d}/fit.nc", "--save_params", "{d}/new.nc"],
        "both_absent": ["--load_params", "{d}/fit.nc", "--save_params", "{d}/new.nc"],
        "absent": ["--load_params", "{d}/fit.nc"],
        "no_scale": ["--load_params", "{d}/fit.nc"],
        "no_variable": ["--load_params", "{d}/fit.nc"],
        "other_periodicity": ["--load_params", "{d}/fit.nc"],
        "not_netcdf": ["--load_params", "{d}/fit.nc"],
        "exists": ["--save_params", "{d}/fit.nc"],
        "exists_text": ["--save_params", "{d}/fit.nc"],
    }[what]
    if what.startswith("both") and lay["seed"] % 2:
        more = more + ["--overwrite"]
    steps.append(c21.step(lay, cal, run, "in.nc", "out", more))
    r = worker.cli(steps)[-1]
    check(is_error(r.get("error")), "spi command accepted unusable parameter options (%s)" % what, created=r["created"])
    check(not r["created"] and not r["modified"] and not r["deleted"], "a rejected spi command touched files (%s)" % what, created=r["created"], modified=r["modified"], deleted=r["deleted"])
    return {what, "nontrivial"}
