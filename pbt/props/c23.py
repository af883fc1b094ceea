"""C23 the commands reject inconsistent inputs before writing any output."""
import copy

import numpy as np
from hypothesis import strategies as st

import clicase as cc
import gen
from harness import check, is_error, test
from props import c18, c21

RULE = (
    "A case is a valid configuration of one of the commands (any input type, index, file layout) with one "
    "thing made inconsistent: an option missing, an unknown variable or file, unsupported dimensions, "
    "precipitation against temperature or PET on other coordinates, divisions or times, both or neither of "
    "temperature and PET, missing or negative scales, daily PET, invalid choices; or a valid one with "
    "coordinates perturbed within 0.09 of the grid spacing. Non-trivial: every rejection case; an "
    "accepted case with at least 24 finite values in some output."
)
ASSUMPTIONS = [
    "coordinates differing by between 0.09 and 0.13 of the grid spacing (the tolerance up to its relative term) are not generated",
    "the coordinates of an accepted run's output may be those of any of its inputs",
]

PROCESS_FAULTS = [
    "no_precip_file", "no_precip_var", "unknown_precip_var", "absent_precip_file", "precip_dims",
    "no_scales", "negative_scale",
    "neither", "both", "second_no_var", "second_unknown_var", "second_absent_file", "second_dims", "second_type",
    "lat", "lat", "lon", "lon", "lat_more", "division", "division_more", "time_shift", "time_short", "time_other_year", "time_one", "time_one",
    "pet_no_temp", "pet_unknown_temp", "pet_no_var", "pet_daily", "pet_dims",
]
MAIN_FAULTS = ["bad_index", "bad_periodicity", "no_index", "no_periodicity", "no_base", "bad_multi", "bad_chunks", "bad_scale", "bad_year"]
SPI_FAULTS = ["no_precip_file", "no_precip_var", "unknown_precip_var", "absent_precip_file", "precip_dims", "no_scales", "negative_scale",
              "bad_periodicity", "no_periodicity", "no_base", "bad_multi", "bad_scale", "bad_year"]


@st.composite
def config(draw, command=None, kinds=None, indices=None):
    command = command or draw(st.sampled_from(["process", "process", "main", "spi"]))
    kinds = kinds or (("grid",) if command == "spi" else ("grid", "grid", "divisions", "series"))
    lay = draw(cc.layout(kinds=kinds, max_rows=4, max_cols=3, min_years=5, max_years=6))
    lay["nans"] = ["none"]
    if command == "spi":
        index = "spi"
    else:
        index = draw(st.sampled_from(indices or (["spi", "pnp"] if lay["kind"] == "series" else ["spi", "spei", "pnp", "pet", "scaled"])))
    return {
        "lay": lay,
        "command": command,
        "index": index,
        "source": draw(st.sampled_from(["pet", "temp"])),
        "one_file": False,
        "extra_var": False,
        "scales": draw(st.lists(st.integers(1, 6), min_size=1, max_size=2, unique=True)),
        "cal": [lay["first"], lay["first"] + 4],
        "multi": draw(st.sampled_from(["single", "all_but_one", "all"])),
        "cpus": draw(st.integers(1, 4)),
        "chunks": "none",
        "chunked": False,
    }


SECOND = {"neither", "both", "second_no_var", "second_unknown_var", "second_absent_file", "second_dims", "second_type", "lat", "lon", "lat_more",
          "division", "division_more", "time_shift", "time_short", "time_other_year", "time_one"}


@st.composite
def faulty(draw):
    command = draw(st.sampled_from(["process", "process", "process", "main", "spi"]))
    fault = draw(st.sampled_from({"process": PROCESS_FAULTS, "main": MAIN_FAULTS + PROCESS_FAULTS, "spi": SPI_FAULTS}[command]))
    kinds = indices = None
    if fault in SECOND:
        indices = ["spei", "scaled"]
        kinds = ("grid", "divisions")
    elif fault.startswith("pet_"):
        indices = ["pet"]
    elif fault in ("no_scales", "negative_scale", "no_precip_file", "no_precip_var", "unknown_precip_var", "absent_precip_file", "precip_dims", "bad_scale"):
        indices = ["spi", "spei", "pnp", "scaled"]
    if fault in ("lat", "lon", "lat_more"):
        kinds = ("grid",)
    if fault in ("division", "division_more"):
        kinds = ("divisions",)
    if command == "spi":
        kinds = ("grid",)
    elif kinds is None and indices and "spei" in indices:
        kinds = ("grid", "divisions")
    elif kinds is None and fault.startswith("pet_"):
        kinds = ("grid", "divisions")
    out = draw(config(command, kinds, indices))
    out["fault"] = fault
    out["k"] = draw(st.integers(0, 7))
    out["jitter"] = draw(st.integers(0, 2**31))
    out["amount"] = draw(st.sampled_from([0.3, 0.5, 1.0, 2.0, -0.3, -1.0, 0.13, -0.13]))
    out["bad_dims"] = draw(st.sampled_from(["lon_lat_time", "xy", "two", "lat_time_lon", "time_lon_lat", "scalar_time", "four"]))
    return out


def bad_dimensions(case, step, name):
    """Replace a variable's dimensions by unsupported ones."""
    f = step["file"]
    v = f["vars"][name]
    n = cc.n_times(case["lay"])
    kind = case["bad_dims"]
    coords = {"time": f["coords"]["time"]}
    shape = {
        "lon_lat_time": (["lon", "lat", "time"], (2, 3, n)),
        "lat_time_lon": (["lat", "time", "lon"], (3, n, 2)),
        "time_lon_lat": (["time", "lon", "lat"], (n, 2, 3)),
        "xy": (["y", "x", "time"], (3, 2, n)),
        "two": (["lat", "time"], (3, n)),
        "scalar_time": (["lat", "lon"], (3, 2)),
        "four": (["level", "lat", "lon", "time"], (1, 3, 2, n)),
    }[kind]
    rng = np.random.Generator(np.random.PCG64(case["lay"]["seed"]))
    for d, k in zip(*shape):
        if d != "time":
            coords[d] = {"values": np.arange(float(k)), "attrs": {"units": "degrees"}}
    f["coords"] = coords
    f["vars"] = {name: {"dims": shape[0], "values": rng.gamma(2, 20, shape[1]), "attrs": v["attrs"]}}


def other_layout(case, lay):
    """The second data set on coordinates that do not match."""
    fault, k, amount = case["fault"], case["k"], case["amount"]
    lay = copy.deepcopy(lay)
    step = None
    if fault == "time_short":
        lay["years"] += 1 if amount > 0 else -1
    elif fault == "time_other_year":
        lay["first"] += 1 if amount > 0 else -1
    elif fault == "time_shift":
        lay["stamp"] = {"start": "middle", "middle": "end", "end": "start"}[lay["stamp"]]
    elif fault in ("lat_more", "division_more"):
        lay["rows"] += 1
    elif fault == "second_type":
        lay["kind"] = {"grid": ["divisions", "series"], "divisions": ["grid", "series"]}[lay["kind"]][k % 2]
        if lay["kind"] != "grid":
            lay["cols"] = 1
        if lay["kind"] == "series":
            lay["rows"] = 1
    return lay


def shift_coordinate(step, name, k, amount):
    c = step["file"]["coords"][name]
    v = np.array(c["values"])
    if v.dtype.kind in "iu":
        v[k % v.size] += 1 if amount > 0 else -1
    else:
        gap = abs(float(v[1] - v[0])) if v.size > 1 else 2.0
        if v.size == 1:
            # without a spacing only differences that are clear in any case
            amount = float(np.sign(amount)) * max(abs(amount), 0.3)
        v[k % v.size] += amount * gap
    c["values"] = v


def command_step(case, args, more_args=None):
    """The run, through the Namespace or the command line."""
    a = cc.process_args(case["index"], case["lay"], case["scales"], case["cal"], "{d}/out", case["multi"], case["chunks"], **args)
    a.update(more_args or {})
    return cc.command_step(case["command"], a, case["cpus"])


@test("C23", "rejects", faulty(), quick=420, cli=True)
def rejects(case, worker):
    """An inconsistent run fails, writes nothing and leaves all files alone."""
    lay, fault = case["lay"], case["fault"]
    steps, args, arrays = c18.inputs(case)
    by = {s["file"]["path"]: s for s in steps}
    second = case["source"] if "netcdf_" + case["source"] in args else "temp"
    over = {}
    if fault == "no_precip_file":
        over["netcdf_precip"] = None
    elif fault == "no_precip_var":
        over["var_name_precip"] = None
    elif fault == "unknown_precip_var":
        over["var_name_precip"] = ["PRCP", "prcp2", "petvar", ""][case["k"] % 4]
    elif fault == "absent_precip_file":
        over["netcdf_precip"] = "{d}/nowhere.nc"
    elif fault == "precip_dims":
        bad_dimensions(case, by["in_precip.nc"], "prcp")
    elif fault == "no_scales":
        over["scales"] = None
    elif fault == "negative_scale":
        over["scales"] = case["scales"] + [-1 - case["k"]] if case["k"] % 2 else [-1 - case["k"]] + case["scales"]
    elif fault == "neither":
        for key in ("temp", "pet"):
            over["netcdf_" + key] = over["var_name_" + key] = None
    elif fault == "both":
        extra = "temp" if second == "pet" else "pet"
        steps.append(cc.nc_file(lay, "in_%s.nc" % extra, {"extra": (cc.series(lay, extra), "mm" if extra == "pet" else "celsius")}))
        over["netcdf_" + extra], over["var_name_" + extra] = "{d}/in_%s.nc" % extra, "extra"
    elif fault in ("second_no_var", "pet_no_var"):
        over["var_name_" + second] = None
    elif fault in ("second_unknown_var", "pet_unknown_temp"):
        over["var_name_" + second] = ["prcp", "TAVG", "x"][case["k"] % 3]
    elif fault == "second_absent_file":
        over["netcdf_" + second] = "{d}/nowhere.nc"
    elif fault in ("second_dims", "pet_dims"):
        bad_dimensions(case, by["in_%s.nc" % second], {"pet": "petvar", "temp": "tavg"}[second])
    elif fault == "pet_no_temp":
        over["netcdf_temp"] = None
    elif fault == "pet_daily":
        from client import DAILY

        over["periodicity"] = DAILY
    elif fault in ("second_type", "lat_more", "division_more", "time_short", "time_other_year", "time_shift"):
        lay2 = other_layout(case, lay)
        i = steps.index(by["in_%s.nc" % second])
        steps[i] = cc.nc_file(lay2, "in_%s.nc" % second, {{"pet": "petvar", "temp": "tavg"}[second]: (cc.series(lay2, second), "mm" if second == "pet" else "celsius")})
    elif fault == "time_one":
        # one time stamp, anywhere, is off by some days
        by["in_%s.nc" % second]["file"]["coords"]["time"]["one"] = [case["jitter"] % cc.n_times(lay), 1 + case["k"]]
    elif fault in ("lat", "lon", "division"):
        shift_coordinate(by["in_%s.nc" % second], fault, case["k"], case["amount"])
    elif fault == "bad_index":
        over["index"] = ["eto", "SPI", "pdsi"][case["k"] % 3]
    elif fault == "no_index":
        over["index"] = None
    elif fault == "bad_periodicity":
        over["periodicity"] = ["weekly", "month", "Monthly"][case["k"] % 3]
    elif fault == "no_periodicity":
        over["periodicity"] = None
    elif fault == "no_base":
        over["output_file_base"] = None
    elif fault == "bad_multi":
        over["multiprocessing"] = ["some", "none", "ALL"][case["k"] % 3]
    elif fault == "bad_chunks":
        over["chunksizes"] = "auto"
    elif fault == "bad_scale":
        over["scales"] = ["3.5", "x", "1,2"][case["k"] % 3: case["k"] % 3 + 1]
    elif fault == "bad_year":
        over["calibration_start_year"] = "nineteen"
    else:
        raise ValueError(fault)
    run = worker.cli(steps + [command_step(case, args, over)])[-1]
    what = "%s command, %s, %s, %s" % (case["command"], case["index"], lay["kind"], fault)
    check(is_error(run.get("error")), what + ": an inconsistent run was accepted", created=run["created"])
    check(not run["created"], what + ": a rejected run wrote files", created=run["created"])
    check(not run["modified"] and not run["deleted"], what + ": a rejected run changed files", modified=run["modified"], deleted=run["deleted"])
    return {fault, case["command"], "nontrivial"}


@st.composite
def perturbed(draw):
    out = draw(config(kinds=None))
    out["lay"]["nans"] = draw(st.lists(st.sampled_from(["none", "some", "all"]), min_size=1, max_size=3))
    out["shift"] = draw(st.sampled_from([0.0, 0.02, 0.05, -0.05, 0.09, -0.09]))
    out["jitter"] = draw(st.integers(0, 2**31))
    out["precip_time_first"] = draw(st.booleans())
    out["minimal"] = draw(st.booleans())
    return out


@test("C23", "accepts", perturbed(), quick=156, cli=True)
def accepts(case, worker):
    """A consistent run, also with coordinates perturbed within the tolerance or another dimension
    order in the second file, succeeds, writes the library values and leaves its inputs alone."""
    lay = case["lay"]
    steps, args, arrays = c18.inputs(case)
    shifted = dict(lay)
    if len(steps) == 2:
        second = steps[1]["file"]
        lay2 = dict(lay, time_first=case["precip_time_first"])
        (name, v), = [(k, x) for k, x in second["vars"].items() if k != "lat"]
        key = "temp" if name == "tavg" else "pet"
        steps[1] = cc.nc_file(lay2, second["path"], {name: (arrays[key], v["attrs"]["units"])})
        if lay["kind"] == "grid" and case["shift"]:
            rng = np.random.Generator(np.random.PCG64(case["jitter"]))
            for c in ("lat", "lon"):
                values = np.array(steps[1]["file"]["coords"][c]["values"])
                if values.size > 1:
                    gap = abs(float(values[1] - values[0]))
                    values = values + (case["shift"] * gap * rng.uniform(0.2, 1.0, values.size)).astype(values.dtype)
                    steps[1]["file"]["coords"][c]["values"] = values
                    if c == "lat":
                        shifted["lat_values"] = [float(x) for x in values]
    if case["command"] == "spi":
        want = c21.spi_files(worker, lay, case["cal"], case["scales"], arrays["precip"])
    else:
        want = c18.expected(dict(case, lay=shifted), worker, arrays)
    if want is None:
        return {"rejected by the library"}
    over = {}
    if case["minimal"]:
        # options that have defaults or are not needed
        if case["command"] != "process":
            over = {"multiprocessing": None, "chunksizes": None}
        if case["index"] == "pet":
            over.update(scales=None, calibration_start_year=None, calibration_end_year=None)
    run = worker.cli(steps + [command_step(case, args, over)])[-1]
    what = "%s command, %s, %s" % (case["command"], case["index"], lay["kind"])
    cc.check_success(run, want, what)
    for path in sorted(want):
        var, values = want[path]
        cc.check_file(lay, run["files"], path, var, values, "%s: %s" % (what, var), coordinate_slack=abs(case["shift"]))
    out = {case["command"], case["index"]}
    if case["shift"] and "lat_values" in shifted:
        out.add("coordinates within tolerance")
    if lay["rows"] == 1 or lay["cols"] == 1:
        out.add("single row or column")
    if any(cc.informative(v) for _, v in want.values()):
        out.add("nontrivial")
    return out


@st.composite
def gridded(draw):
    """Two grids, one coordinate of the second within or beyond the tolerance of its own axis."""
    out = draw(config(draw(st.sampled_from(["process", "process", "main"])), ("grid",), ["spei", "spei", "scaled"]))
    out["lay"].update(rows=draw(st.integers(2, 3)), cols=draw(st.integers(2, 3)), years=5, extra=0, climates=["gamma"])
    out["scales"] = [draw(st.integers(1, 3))]
    out["axis"] = draw(st.sampled_from(["lat", "lon"]))
    out["k"] = draw(st.integers(0, 2))
    out["amount"] = draw(st.sampled_from([0.13, -0.13, 0.3, -0.5, 1.0, -1.0, 0.09, -0.09, 0.05, 0.08]))
    return out


@test("C23", "grids", gridded(), quick=108, cli=True)
def grids(case, worker):
    """Grids match within a tenth of the spacing of the axis in question, not of another."""
    steps, args, arrays = c18.inputs(case)
    if len(steps) < 2:
        return set()
    shift_coordinate(steps[1], case["axis"], case["k"], case["amount"])
    run = worker.cli(steps + [command_step(case, args, {})])[-1]
    what = "%s moved by %g of the spacing" % (case["axis"], case["amount"])
    accepted = abs(case["amount"]) < 0.1
    if accepted:
        check(run.get("ok") is True, what + ": refused", got=run.get("error"))
        check(bool(run["created"]), what + ": nothing written")
        return {"accepted", case["axis"], "nontrivial"}
    check(is_error(run.get("error")), what + ": accepted", created=run["created"])
    check(not run["created"], what + ": a rejected run wrote files", created=run["created"])
    return {"rejected", case["axis"], "nontrivial"}
