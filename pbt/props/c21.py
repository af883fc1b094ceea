"""C21 the spi command writes the library SPI for every cell, scale and distribution."""
import numpy as np
from hypothesis import strategies as st

import clicase as cc
import gen
from harness import check, is_error, test
from props.c18 import tolerance

RULE = (
    "A case is a generated grid (1-9 rows, 1-3 columns, arid cells with zeros, missing cells, time first or "
    "last, latitudes ascending or descending, monthly with whole or partial final year, or daily), a list of "
    "1-3 scales in any order, a calibration period and one or two runs of the spi command in one process with "
    "their own multiprocessing mode and processor count (1-16). Non-trivial: a run succeeded and some output "
    "has at least 24 finite values of which 12 differ."
)
ASSUMPTIONS = [
    "only grids with latitude and longitude units, the input the command supports; whole years of daily values",
    "inputs for which the library rejects some cell (a calendar step without any spread, Pearson) are skipped",
]


@st.composite
def grid(draw, daily=False):
    if daily:
        return draw(cc.layout(kinds=("grid",), per=366, max_rows=2, max_cols=2, min_years=5, max_years=6))
    return draw(cc.layout(kinds=("grid",), max_rows=9, max_cols=3, min_years=5, max_years=12))


@st.composite
def options(draw):
    return {"multi": draw(st.sampled_from(["single", "all_but_one", "all"])), "cpus": draw(st.integers(1, 16))}


def scales(daily, most=3):
    one = st.sampled_from([1, 7, 30, 90]) if daily else st.integers(1, 14) | st.sampled_from([1, 2, 3, 6, 24])
    return st.lists(one, min_size=1, max_size=1 if daily else most, unique=True)


def calibration(lay):
    return gen.window(lay["first"], lay["years"] * 12 + lay["extra"], 12, kinds=["full", "inside", "head", "tail", "past_end"], min_len=5)


@st.composite
def case(draw, daily=False):
    lay = draw(grid(daily))
    first = {"scales": draw(scales(daily)), **draw(options())}
    runs = [first]
    if draw(st.booleans()) and not daily:
        runs.append({"scales": draw(scales(daily) | st.just(first["scales"][::-1]) | st.just(first["scales"][:1])), **draw(options())})
    return {
        "lay": lay,
        "cal": draw(calibration(lay)),
        "runs": runs,
        "extra_var": draw(st.booleans()),
        "other": draw(earlier(lay, daily)),
    }


@st.composite
def earlier(draw, lay, daily):
    """The input of an unrelated run before: none, another grid, or other values on the same grid."""
    kind = draw(st.sampled_from(["none", "none", "none", "grid", "data", "data", "turned", "turned"]))
    if kind == "none" or (daily and kind == "grid"):
        return None
    if kind == "turned":  # as many cells, laid out otherwise
        return dict(lay, rows=lay["cols"], cols=lay["rows"])
    return draw(grid()) if kind == "grid" else dict(lay, seed=lay["seed"] + draw(st.integers(1, 50)))


def argv(lay, cal, run, path="in.nc", base="out", more=()):
    out = [
        "--periodicity", "monthly" if lay["per"] == 12 else "daily",
        "--scales", *[str(s) for s in run["scales"]],
        "--calibration_start_year", str(cal[0]), "--calibration_end_year", str(cal[1]),
        "--netcdf_precip", "{d}/" + path, "--var_name_precip", "prcp",
        "--output_file_base", "{d}/" + base, "--multiprocessing", run["multi"],
    ]
    return out + list(more)


def step(lay, cal, run, path="in.nc", base="out", more=()):
    return {"op": "run", "cmd": "spi", "argv": argv(lay, cal, run, path, base, more), "cpus": run["cpus"]}


def unit(lay):
    return "month" if lay["per"] == 12 else "day"


def spi_files(worker, lay, cal, scale_list, precip, base="out", fitting=None):
    """{path: (variable, library SPI)}, or None if the library rejects a cell."""
    out = {}
    for scale in scale_list:
        for dist in ("gamma", "pearson"):
            values = cc.library(worker, lay, "spi", scale, dist, cal, precip=precip, fitting=fitting[scale, dist] if fitting else None)
            if is_error(values):
                return None
            var = "spi_%s_%d_%s" % (dist, scale, unit(lay))
            out["%s_%s.nc" % (base, var)] = (var, values)
    return out


def compare(lay, run, want, what, more=()):
    cc.check_success(run, list(want) + list(more), what)
    for path in sorted(want):
        var, values = want[path]
        cc.check_file(lay, run["files"], path, var, values, "%s: %s" % (what, var), rtol=tolerance(lay), atol=tolerance(lay))


def decide(case, worker):
    lay = case["lay"]
    precip = cc.series(lay, "precip")
    steps = [cc.nc_file(lay, "in.nc", {"prcp": (precip, "mm")}, extra=case["extra_var"])]
    wants, where = [], []
    if case["other"]:
        # an unrelated run before
        o = case["other"]
        steps.append(cc.nc_file(o, "other.nc", {"prcp": (cc.series(o, "precip"), "mm")}))
        steps.append(step(o, [o["first"], o["first"] + 9], {"scales": case["runs"][0]["scales"][:1], "multi": "single", "cpus": 2}, "other.nc", "other"))
    for i, run in enumerate(case["runs"]):
        want = spi_files(worker, lay, case["cal"], run["scales"], precip, "out%d" % i)
        if want is None:
            return {"rejected by the library"}
        wants.append(want)
        where.append(len(steps))
        steps.append(step(lay, case["cal"], run, "in.nc", "out%d" % i))
    report = worker.cli(steps)
    for i, want in enumerate(wants):
        r = case["runs"][i]
        compare(lay, report[where[i]], want, "spi command (scales %s, %s of %d processors)" % (r["scales"], r["multi"], r["cpus"]))
    out = {"daily" if lay["per"] != 12 else "monthly"}
    if lay["time_first"]:
        out.add("time first")
    if len(wants) > 1 or case["other"]:
        out.add("several runs")
    if lay["rows"] > case["runs"][0]["cpus"]:
        out.add("more rows than processors")
    if any(cc.informative(v) for w in wants for _, v in w.values()):
        out.add("nontrivial")
    return out


@test("C21", "monthly", case(), quick=141, cli=True)
def monthly(case, worker):
    """Every file of the spi command holds the library SPI of each cell (monthly)."""
    return decide(case, worker)


@test("C21", "daily", case(daily=True), quick=19, cli=True)
def daily(case, worker):
    """Every file of the spi command holds the library SPI of each cell (daily)."""
    return decide(case, worker)
