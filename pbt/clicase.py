"""Generated inputs of the commands: NetCDF files (grids, climate divisions, single series),
and the values the library computes from the same series."""
import calendar
import datetime

import numpy as np
from hypothesis import strategies as st

import gen
from codec import RemoteError
from client import DAILY, GAMMA, MONTHLY, PEARSON
from harness import check, plain, same

CLIMATES = ["gamma", "seasonal", "arid", "lumpy", "big", "wide", "normal", "negskew"]
NANS = ["none", "none", "none", "some", "trailing", "leading", "gap", "year", "all"]


@st.composite
def layout(draw, kinds=("grid", "grid", "grid", "divisions", "series"), per=12, max_rows=5, max_cols=3, min_years=5, max_years=14,
           partial=True):
    """A data set: locations, times and per-location climates."""
    kind = draw(st.sampled_from(list(kinds)))
    rows = draw(st.integers(1, max_rows)) if kind != "series" else 1
    cols = draw(st.integers(1, max_cols)) if kind == "grid" else 1
    years = draw(st.integers(min_years, max_years))
    case = {
        "kind": kind,
        "rows": rows,
        "cols": cols,
        "per": per,
        "first": draw(st.sampled_from([1899, 1951, 1980, 1998, 2000, 2001]) | st.integers(1850, 2010)),
        "years": years,
        "extra": draw(st.sampled_from([0, 0, 0, 1, 5, 11])) if per == 12 and partial else 0,
        "seed": draw(st.integers(0, 2**31)),
        "climates": draw(st.lists(st.sampled_from(CLIMATES), min_size=1, max_size=3)),
        "nans": draw(st.lists(st.sampled_from(NANS), min_size=1, max_size=4)),
        "lat0": draw(st.sampled_from([-60.0, -10.0, 0.0, 30.0, 45.0, 62.5])),
        "dlat": draw(st.sampled_from([0.5, 2.5, -0.5, -2.5, 5.0])),
        "dlon": draw(st.sampled_from([2.5, 0.25, 20.0])),
        "time_first": draw(st.booleans()),
        "stamp": draw(st.sampled_from(["start", "start", "middle", "end"])) if per == 12 else "start",
        "hdf5": draw(st.booleans()),
        "float32": draw(st.sampled_from([False, False, True])),
        "lat_float32": draw(st.sampled_from([False, False, True])),
    }
    return case


def n_times(lay):
    if lay["per"] == 12:
        return lay["years"] * 12 + lay["extra"]
    return sum(366 if calendar.isleap(y) else 365 for y in range(lay["first"], lay["first"] + lay["years"]))


def dims(lay):
    d = {"grid": ["lat", "lon"], "divisions": ["division"], "series": []}[lay["kind"]]
    return ["time"] + d if lay["time_first"] else d + ["time"]


def out_dims(lay):
    return {"grid": ["lat", "lon"], "divisions": ["division"], "series": []}[lay["kind"]] + ["time"]


def lats(lay):
    if "lat_values" in lay:
        return np.array(lay["lat_values"])
    v = lay["lat0"] + lay["dlat"] * np.arange(lay["rows"])
    return v.astype(np.float32) if lay["lat_float32"] else v


def coords(lay):
    n = n_times(lay)
    start = "%04d-01-01" % lay["first"]
    if lay["per"] == 12:
        times = {"dates": [start, n, "M" if lay["stamp"] == "end" else "MS"]}
        if lay["stamp"] == "middle":
            times["offset_days"] = 14
    else:
        times = {"dates": [start, n, "D"]}
    out = {"time": times}
    if lay["kind"] == "grid":
        out["lat"] = {"values": lats(lay), "attrs": {"units": "degrees_north"}}
        out["lon"] = {"values": -100.0 + lay.get("dlon", 2.5) * np.arange(lay["cols"]), "attrs": {"units": "degrees_east"}}
    elif lay["kind"] == "divisions":
        out["division"] = {"values": 101 + np.arange(lay["rows"]) * 3}
    return out


def time_strings(lay):
    n = n_times(lay)
    if lay["per"] != 12:
        day = datetime.date(lay["first"], 1, 1)
        return [(day + datetime.timedelta(i)).isoformat() for i in range(n)]
    out = []
    for i in range(n):
        y, m = lay["first"] + i // 12, i % 12 + 1
        d = {"start": 1, "middle": 15, "end": calendar.monthrange(y, m)[1]}[lay["stamp"]]
        out.append(datetime.date(y, m, d).isoformat())
    return out


def _store(lay, v):
    """The values as the file holds them."""
    return v.astype(np.float32) if lay["float32"] else v


def series(lay, what):
    """Array (location..., time) of precipitation, temperature or PET as stored in the file."""
    n = n_times(lay)
    per = 12 if lay["per"] == 12 else 365
    cells = lay["rows"] * lay["cols"]
    out = np.empty((cells, n))
    for i in range(cells):
        s = lay["seed"] + 101 * i
        nan = lay["nans"][i % len(lay["nans"])]
        if what == "precip":
            v = gen.rain(lay["climates"][i % len(lay["climates"])], n, per, s)
            if s % 7 == 0:
                v[[n // 3, n // 2]] = -2.5
        elif what == "temp":
            rng = np.random.Generator(np.random.PCG64(s + 5))
            mean, swing = [(9.0, 14.0), (9.0, 14.0), (-4.0, 6.0), (27.0, 6.0)][lay["seed"] % 4]
            v = mean + swing * np.sin(2 * np.pi * (np.arange(n) % 12 - 3.5) / 12.0) + rng.normal(0, 2.0, n) - 3.0 * (i % 4)
            if nan in ("some", "gap", "year"):
                # months or years without a value, though every calendar month is needed
                holes = rng.random(n) < (0.1 if nan == "some" else 0.5)
                holes[:12] = False
                v[holes] = np.nan
            nan = "all" if nan == "all" else "none"
        else:
            rng = np.random.Generator(np.random.PCG64(s + 9))
            v = 55.0 + 45.0 * np.sin(2 * np.pi * (np.arange(n) % per) / per) + rng.gamma(2.0, 4.0, n)
            nan = {"all": "all", "some": "some"}.get(nan, "none")
        if nan == "all":
            v = np.full(n, np.nan)
        else:
            v = gen.punch(v, nan, per, s)
        out[i] = np.round(v, 6)
    return _store(lay, out)


def shaped(lay, values):
    n = n_times(lay)
    if lay["kind"] == "grid":
        v = values.reshape(lay["rows"], lay["cols"], n)
        return np.moveaxis(v, -1, 0) if lay["time_first"] else v
    if lay["kind"] == "divisions":
        return values.T if lay["time_first"] else values
    return values.reshape(n)


def nc_file(lay, path, variables, chunked=False, extra=False):
    """A `write` step; variables: name -> (values (cells, time), units)."""
    out = {}
    if extra:
        out["station_count"] = {"dims": ["time"], "values": np.arange(n_times(lay), dtype=float)}
    for name, (values, units) in variables.items():
        v = shaped(lay, values)
        spec = {"dims": dims(lay), "values": v, "attrs": {"units": units} if units is not None else {}}
        if chunked:
            spec["encoding"] = {"chunksizes": tuple(max(1, (k + 1) // 2) for k in v.shape)}
        out[name] = spec
    if lay["kind"] == "divisions":
        out["lat"] = {"dims": ["division"], "values": lats(lay), "attrs": {"units": "degrees_north"}}
    return {"op": "write", "file": {"path": path, "coords": coords(lay), "vars": out, "attrs": {"title": "generated"}, "hdf5": lay["hdf5"]}}


# --------------------------------------------------------------------------- library values


def period(lay):
    return MONTHLY if lay["per"] == 12 else DAILY


def library(worker, lay, index, scale=None, dist=None, cal=None, precip=None, temp=None, pet=None, fitting=None):
    """What the library computes at each location: array (location..., time), or the error of
    the first location it rejects. Where the numbers the command works on may differ from these by
    rounding (lay["noise"], daily single precision), an entry that rounding decides comes out infinite."""
    noise = lay.get("noise", 3e-7 if lay["per"] != 12 and lay["float32"] else 0.0)
    values = _library(worker, lay, index, scale, dist, cal, precip, temp, pet, fitting)
    if noise and not is_rejected(values):
        rng = np.random.Generator(np.random.PCG64(7))
        shaken = [None if v is None else np.array(v, dtype=float) * (1.0 + noise * rng.uniform(-1, 1, np.shape(v))) for v in (precip, temp, pet)]
        if temp is not None:  # degrees of another scale have an offset
            shaken[1] += 30.0 * noise * rng.uniform(-1, 1, np.shape(temp))
        other = _library(worker, lay, index, scale, dist, cal, *shaken, fitting)
        if is_rejected(other):
            return other
        limit = (1e-3 if noise > 1e-9 else 1e-6) / 5
        with np.errstate(all="ignore"):
            steady = (np.isnan(values) & np.isnan(other)) | (np.abs(values - other) <= limit * (1.0 + np.abs(values)))
        values = np.where(steady, values, np.inf)
    return values


def _library(worker, lay, index, scale, dist, cal, precip, temp, pet, fitting):
    n = n_times(lay)
    cells = lay["rows"] * lay["cols"]
    daily = lay["per"] != 12
    first, years = lay["first"], lay["years"]
    f64 = lambda v: np.array(v, dtype=float)

    def on_calendar(v):
        if not daily:
            return f64(v)
        r = worker.call("utils.transform_to_366day", f64(v), first, years)
        return r

    ops = []
    for i in range(cells):
        d = PEARSON if dist == "pearson" else GAMMA
        if index == "spi":
            args = [on_calendar(precip[i]), scale, d, first, cal[0], cal[1], period(lay)]
            ops.append({"fn": "indices.spi", "args": args, "kwargs": {"fitting_params": fitting[i]} if fitting else {}})
        elif index == "spei":
            ops.append({"fn": "indices.spei", "args": [on_calendar(precip[i]), on_calendar(pet[i]), scale, d, period(lay), first, cal[0], cal[1]]})
        elif index == "pnp":
            ops.append({"fn": "indices.percentage_of_normal", "args": [on_calendar(precip[i]), scale, first, cal[0], cal[1], period(lay)]})
        elif index == "pet":
            lat = float(lats(lay)[i // lay["cols"]])
            ops.append({"fn": "indices.pet", "args": [f64(temp[i]), lat, first]})
    results = worker.batch(ops)
    out = np.empty((cells, n))
    for i, r in enumerate(results):
        if "error" in r:
            return r["error"]
        v = plain(r["value"])
        if daily:
            v = plain(worker.call("utils.transform_to_gregorian", v, first))
        out[i] = v
    if lay["kind"] == "grid":
        return out.reshape(lay["rows"], lay["cols"], n)
    return out if lay["kind"] == "divisions" else out.reshape(n)


def check_file(lay, files, path, var, expected, what, rtol=1e-9, atol=1e-9, coordinate_slack=0.0):
    """The output file holds one data variable with the expected values on the input's grid."""
    check(path in files, "%s: no output file %s" % (what, path), files=sorted(files))
    f = files[path]
    check("error" not in f, "%s: the output file cannot be read" % what, error=f.get("error"))
    check(sorted(f["vars"]) == [var], "%s: unexpected data variables" % what, got=sorted(f["vars"]), expected=[var])
    v = f["vars"][var]
    check(v["dims"] == out_dims(lay), "%s: wrong dimensions" % what, got=v["dims"], expected=out_dims(lay))
    decided = ~np.isinf(expected)
    got = np.asarray(v["values"])
    if got.shape == np.shape(expected):
        got, expected = np.where(decided, got, 0.0), np.where(decided, expected, 0.0)
    same(got, expected, what, rtol=rtol, atol=atol)
    c = f["coords"]
    check(c.get("time", {}).get("values") == time_strings(lay), "%s: times differ from the input's" % what, got=str(c.get("time"))[:200])
    wanted = coords(lay)
    for name in ("lat", "lon", "division"):
        if name in wanted:
            check(name in c, "%s: coordinate %s is missing" % (what, name), got=sorted(c))
            values = np.asarray(wanted[name]["values"])
            # the slack is a share of the spacing
            slack = coordinate_slack * abs(float(values[1] - values[0])) if coordinate_slack and values.size > 1 else 0.0
            same(c[name]["values"], values, "%s: coordinate %s" % (what, name), atol=1e-9 + slack * 1.01)
    if lay["kind"] == "grid":
        for name in ("lat", "lon"):
            check(c[name]["dims"] == [name], "%s: coordinate %s has wrong dimensions" % (what, name))


def check_success(run, created, what):
    """The command succeeded, wrote exactly these files, and left the others alone."""
    check(run.get("ok") is True, "%s: the command failed on a valid input" % what, error=run.get("error"))
    check(run["created"] + run["modified"] and sorted(run["created"]) == sorted(created), "%s: unexpected set of files written" % what, got=run["created"], expected=sorted(created))
    check(not run["modified"] and not run["deleted"], "%s: other files were changed" % what, modified=run["modified"], deleted=run["deleted"])


def process_args(index, lay, scales, cal, base="{d}/out", multi="single", chunks="none", **files):
    a = {
        "index": index, "periodicity": period(lay), "scales": scales,
        "calibration_start_year": cal[0], "calibration_end_year": cal[1],
        "netcdf_precip": None, "var_name_precip": None, "netcdf_temp": None, "var_name_temp": None,
        "netcdf_pet": None, "var_name_pet": None, "netcdf_awc": None, "var_name_awc": None,
        "output_file_base": base, "multiprocessing": multi, "chunksizes": chunks,
    }
    a.update(files)
    return a


def command_step(command, a, cpus):
    """A run with these arguments, through a Namespace or the command line."""
    if command == "process":
        return {"op": "run", "cmd": "process", "args": a, "cpus": cpus}
    argv = []
    for key, value in a.items():
        if command == "spi" and (key in ("index", "chunksizes") or key.split("_")[-1] in ("temp", "pet", "awc")):
            continue
        if value is None:
            continue
        if key == "periodicity":
            value = value if isinstance(value, str) else value.path.split(".")[-1]
        argv.append("--" + key)
        argv += [str(x) for x in value] if isinstance(value, list) else [str(value)]
    return {"op": "run", "cmd": command, "argv": argv, "cpus": cpus}


def informative(expected):
    """Enough finite, varying values to tell locations and times apart."""
    v = expected[np.isfinite(expected)]
    return v.size >= 24 and np.unique(np.round(v, 6)).size >= 12


def is_rejected(x):
    return isinstance(x, RemoteError)
