"""C18 process_climate_indices output equals the library result in every cell."""
import numpy as np
from hypothesis import strategies as st

import clicase as cc
import gen
from harness import check, is_error, test

RULE = (
    "A case is a generated data set (grid, climate divisions or single series; monthly with whole or "
    "partial final year, or daily; time dimension first or last; float32 or float64; latitudes ascending "
    "or descending; locations with different climates, missing values or entirely missing), an index "
    "choice, scales, a calibration period, a multiprocessing mode, a processor count and a chunk-size "
    "option. Non-trivial: the command succeeded and some output has at least 24 finite values of which 12 "
    "differ."
)
ASSUMPTIONS = [
    "not generated: Palmer and 'all' (the command raises 'Unsupported index' for them), PET and SPEI of single "
    "series and daily climate divisions (both rejected by the command), daily records that end within a year",
    "inputs for which the library itself rejects some location (a calendar step without any spread, Pearson) are skipped",
]

CAL = ["full", "inside", "head", "tail", "past_end"]


@st.composite
def case(draw, daily=False):
    if daily:
        lay = draw(cc.layout(kinds=("grid",), per=366, max_rows=2, max_cols=2, min_years=5, max_years=6))
        index = draw(st.sampled_from(["spi", "pnp", "spei"]))
        scales = draw(st.lists(st.sampled_from([1, 7, 30, 90]), min_size=1, max_size=1))
    else:
        lay = draw(cc.layout())
        index = draw(st.sampled_from(["spi", "spei", "pnp", "pet", "scaled"]))
        if lay["kind"] == "series":
            index = draw(st.sampled_from(["spi", "pnp"]))
        scales = draw(st.lists(st.sampled_from([1, 2, 3, 6, 12, 24]) | st.integers(1, 14), min_size=1, max_size=2, unique=True))
    lay["nans"] = [k if not (index in ("pet", "scaled") and k == "x") else "none" for k in lay["nans"]]
    n = lay["years"] * 12 + lay["extra"]
    return {
        "lay": lay,
        "index": index,
        "source": draw(st.sampled_from(["pet", "temp"])) if index in ("spei", "scaled") and not daily else "pet",
        "one_file": draw(st.booleans()),
        "extra_var": draw(st.booleans()),
        "scales": scales,
        "cal": draw(gen.window(lay["first"], n, 12, kinds=CAL, min_len=5)),
        "multi": draw(st.sampled_from(["single", "all_but_one", "all"])),
        "cpus": draw(st.integers(1, 8)),
        "chunks": draw(st.sampled_from(["none", "none", "input"])),
        "chunked": draw(st.booleans()),
        "via": draw(st.sampled_from(["process", "main"])),
    }


def inputs(case, base="in", units=None):
    """(write steps, file arguments, arrays as stored)"""
    lay, index = case["lay"], case["index"]
    units = units or {"precip": "mm", "temp": "celsius", "pet": "mm"}
    arrays = {}
    if index != "pet":
        arrays["precip"] = cc.series(lay, "precip")
    if index == "pet" or (index in ("spei", "scaled") and case["source"] == "temp"):
        arrays["temp"] = cc.series(lay, "temp")
    if index in ("spei", "scaled") and case["source"] == "pet":
        arrays["pet"] = cc.series(lay, "pet")
    names = {"precip": "prcp", "temp": "tavg", "pet": "petvar"}
    steps, args = [], {}
    chunked = case["chunked"]
    if case["one_file"]:
        path = base + ".nc"
        steps.append(cc.nc_file(lay, path, {names[k]: (v, units[k]) for k, v in arrays.items()}, chunked, case["extra_var"]))
        for k in arrays:
            args["netcdf_" + k], args["var_name_" + k] = "{d}/" + path, names[k]
    else:
        for k, v in arrays.items():
            path = "%s_%s.nc" % (base, k)
            steps.append(cc.nc_file(lay, path, {names[k]: (v, units[k])}, chunked, case["extra_var"]))
            args["netcdf_" + k], args["var_name_" + k] = "{d}/" + path, names[k]
    return steps, args, arrays


def run_step(case, args, base="out", **over):
    a = cc.process_args(case["index"], case["lay"], case["scales"], case["cal"], "{d}/" + base, over.get("multi", case["multi"]), over.get("chunks", case["chunks"]), **args)
    a["scales"] = over.get("scales", case["scales"])
    return cc.command_step(case.get("via", "process"), a, over.get("cpus", case["cpus"]))


def expected(case, worker, arrays, base="out"):
    """{path: (variable, library values)}, or None if the library rejects a location."""
    lay, index = case["lay"], case["index"]
    out = {}
    cal = case["cal"]
    pet = arrays.get("pet")

    def put(var, values):
        if is_error(values):
            return False
        out["%s_%s.nc" % (base, var)] = (var, values)
        return True

    if "temp" in arrays:
        values = cc.library(worker, lay, "pet", temp=arrays["temp"])
        if not put("pet_thornthwaite", values):
            return None
        if np.isinf(values).any():
            values = cc.library(worker, dict(lay, noise=0.0), "pet", temp=arrays["temp"])
        pet = values.reshape(-1, cc.n_times(lay))
    for scale in case["scales"]:
        for dist in ("gamma", "pearson"):
            if index in ("spi", "scaled"):
                if not put("spi_%s_%02d" % (dist, scale), cc.library(worker, lay, "spi", scale, dist, cal, precip=arrays["precip"])):
                    return None
            if index in ("spei", "scaled"):
                if not put("spei_%s_%02d" % (dist, scale), cc.library(worker, lay, "spei", scale, dist, cal, precip=arrays["precip"], pet=pet)):
                    return None
        if index in ("pnp", "scaled"):
            if not put("pnp_%02d" % scale, cc.library(worker, lay, "pnp", scale, None, cal, precip=arrays["precip"])):
                return None
    return out


def tolerance(lay):
    """Feb 29 of the 366-day calendar is averaged in the precision of the input."""
    return 1e-3 if lay["per"] != 12 and lay["float32"] else 1e-9


def compare(lay, run, want, what):
    cc.check_success(run, want, what)
    for path in sorted(want):
        var, values = want[path]
        cc.check_file(lay, run["files"], path, var, values, "%s: %s" % (what, var), rtol=tolerance(lay), atol=tolerance(lay))


def decide(case, worker):
    steps, args, arrays = inputs(case)
    want = expected(case, worker, arrays)
    if want is None:
        return {"rejected by the library"}
    run = worker.cli(steps + [run_step(case, args)])[-1]
    compare(case["lay"], run, want, "process_climate_indices %s" % case["index"])
    out = {case["index"], case["lay"]["kind"]}
    if case["lay"]["time_first"]:
        out.add("time first")
    if any(cc.informative(v) for _, v in want.values()):
        out.add("nontrivial")
    return out


@test("C18", "monthly", case(), quick=302, cli=True)
def monthly(case, worker):
    """Every monthly output file holds the library values of each location."""
    return decide(case, worker)


@test("C18", "daily", case(daily=True), quick=27, cli=True)
def daily(case, worker):
    """Every daily output file holds the library values on the Gregorian dates."""
    return decide(case, worker)
