"""C20 the commands' results do not depend on the input units."""
import numpy as np
from hypothesis import strategies as st

import clicase as cc
import gen
from harness import check, is_error, test
from props import c18, c21

RULE = (
    "A case is a generated data set stored in some supported unit of each variable (millimetre, inch, "
    "Celsius, Fahrenheit, Kelvin spellings in any letter case), an index choice of process_climate_indices "
    "or the spi command; the outputs are compared with the library on the same data in millimetres and "
    "Celsius. Or one variable has an unsupported or missing unit. Non-trivial: some unit differs from "
    "mm/celsius and an output has 24 finite values, or a rejection was due."
)
ASSUMPTIONS = c18.ASSUMPTIONS + ["values agree within 1e-6 (1e-3 for data stored as float32), the rounding of the conversion"]

MM = ["mm", "millimeters", "millimeter", "mm/dy"]
INCH = ["inches", "inch"]
TEMP = {
    "c": ["degree_Celsius", "degrees_Celsius", "celsius", "C"],
    "f": ["f", "fahrenheit", "degree_fahrenheit", "degrees_fahrenheit"],
    "k": ["k", "kelvin"],
}
BAD = {
    "precip": ["cm", "m", "kg m-2 s-1", "mm/month", "inch/dy", "feet", "celsius", "", None],
    "pet": ["cm", "m", "kg m-2 s-1", "W m-2", "feet", "celsius", "", None],
    "temp": ["rankine", "degC", "mm", "inches", "degrees", "", None],
}
letter_case = st.sampled_from(["lower", "upper", "title", "capitalize", "swap"])


def spell(unit, how):
    return {"lower": unit.lower(), "upper": unit.upper(), "title": unit.title(), "capitalize": unit.capitalize(), "swap": unit.swapcase()}[how]


@st.composite
def unit_of(draw, what):
    if what == "temp":
        kind = draw(st.sampled_from(["c", "f", "f", "k", "k"]))
        name = draw(st.sampled_from(TEMP[kind]))
    else:
        kind = draw(st.sampled_from(["mm", "inch", "inch"]))
        name = draw(st.sampled_from((MM if what == "precip" else MM[:3]) if kind == "mm" else INCH))
    return [kind, spell(name, draw(letter_case))]


@st.composite
def case(draw, bad=False):
    command = draw(st.sampled_from(["process", "process", "process", "spi"]))
    daily = draw(st.integers(0, 9)) == 0 and not bad
    if command == "spi":
        lay = draw(cc.layout(kinds=("grid",), max_rows=3, max_cols=2, min_years=5, max_years=8)) if not daily else draw(c21.grid(True))
        index = "spi"
    elif daily:
        lay = draw(c21.grid(True))
        index = draw(st.sampled_from(["spi", "pnp", "spei"]))
    else:
        lay = draw(cc.layout(max_rows=3, max_cols=2, min_years=5, max_years=8))
        index = draw(st.sampled_from(["spi", "spei", "spei", "pnp", "pet", "pet", "scaled"])) if lay["kind"] != "series" else draw(st.sampled_from(["spi", "pnp"]))
    out = {
        "lay": lay,
        "command": command,
        "index": index,
        "source": draw(st.sampled_from(["pet", "temp"])) if not daily else "pet",
        "one_file": draw(st.booleans()),
        "extra_var": False,
        "scales": draw(c21.scales(daily, 2)),
        "cal": draw(c21.calibration(lay)),
        "multi": draw(st.sampled_from(["single", "all"])),
        "cpus": draw(st.integers(1, 4)),
        "chunks": "none",
        "chunked": draw(st.booleans()),
        "units": {k: draw(unit_of(k)) for k in ("precip", "temp", "pet")},
    }
    if bad:
        names = ["precip"] if command == "spi" or index in ("spi", "pnp") else {"pet": ["temp"]}.get(index, ["precip", out["source"]])
        name = draw(st.sampled_from(names))
        out["bad"] = name
        out["units"][name] = ["mm" if name != "temp" else "c", draw(st.sampled_from(BAD[name]))]
    return out


def stored(lay, arrays, units):
    """The data in their units, and what the stored numbers mean in mm and Celsius."""
    files, meaning = {}, {}
    for k, v in arrays.items():
        kind = units[k][0]
        v = v.astype(float)
        w = {"inch": lambda: v / 25.4, "f": lambda: v * 1.8 + 32.0, "k": lambda: v + 273.15}.get(kind, lambda: v)()
        w = w.astype(np.float32) if lay["float32"] else w
        files[k] = w
        x = w.astype(float)
        meaning[k] = {"inch": lambda: x * 25.4, "f": lambda: (x - 32.0) / 1.8, "k": lambda: x - 273.15}.get(kind, lambda: x)()
    return files, meaning


def build(case):
    """(write steps, file arguments, stored arrays' meaning)"""
    lay = case["lay"]
    _, _, arrays = c18.inputs(dict(case, one_file=False))
    files, meaning = stored(lay, arrays, case["units"])
    names = {"precip": "prcp", "temp": "tavg", "pet": "petvar"}
    steps, args = [], {}
    groups = [list(files)] if case["one_file"] else [[k] for k in files]
    for group in groups:
        path = "in_%s.nc" % "_".join(group)
        steps.append(cc.nc_file(lay, path, {names[k]: (files[k], case["units"][k][1]) for k in group}, case["chunked"]))
        for k in group:
            args["netcdf_" + k], args["var_name_" + k] = "{d}/" + path, names[k]
    return steps, args, meaning


def run_of(case, args):
    if case["command"] == "spi":
        return c21.step(case["lay"], case["cal"], case, args["netcdf_precip"].replace("{d}/", ""))
    return c18.run_step(case, args)


@test("C20", "equivalent", case(), quick=220, cli=True)
def equivalent(case, worker):
    """Outputs for data in any supported unit equal the library on millimetres and Celsius."""
    lay = case["lay"]
    steps, args, meaning = build(case)
    # converting units rounds
    case = dict(case, lay=dict(lay, noise=1e-6 if lay["float32"] else 1e-12))
    lay = case["lay"]
    if case["command"] == "spi":
        want = c21.spi_files(worker, lay, case["cal"], case["scales"], meaning["precip"])
    else:
        want = c18.expected(case, worker, meaning)
    if want is None:
        return {"rejected by the library"}
    run = worker.cli(steps + [run_of(case, args)])[-1]
    used = {k: case["units"][k][1] for k in meaning}
    what = "%s command, %s, units %s" % (case["command"], case["index"], used)
    cc.check_success(run, want, what)
    tol = 1e-3 if lay["float32"] else 1e-6
    for path in sorted(want):
        var, values = want[path]
        cc.check_file(lay, run["files"], path, var, values, "%s: %s" % (what, var), rtol=tol, atol=tol)
    out = {case["units"][k][0] for k in meaning} | {case["command"]}
    if any(case["units"][k][0] not in ("mm", "c") for k in meaning) and any(cc.informative(v) for _, v in want.values()):
        out.add("nontrivial")
    return out


@test("C20", "rejects", case(bad=True), quick=116, cli=True)
def rejects(case, worker):
    """An unsupported or missing unit fails the command, without output computed from that variable."""
    steps, args, _ = build(case)
    run = worker.cli(steps + [run_of(case, args)])[-1]
    name = case["bad"]
    unit = case["units"][name][1]
    check(is_error(run.get("error")), "%s command accepted the unit %r of %s" % (case["command"], unit, name), created=run["created"])
    affected = {"precip": ("spi_", "spei_", "pnp_"), "temp": ("pet_", "spei_"), "pet": ("spei_",)}[name]
    bad = [p for p in run["created"] + run["modified"] if p.startswith("out_") and p[4:].startswith(affected)]
    check(not bad, "output was written for %s with unit %r" % (name, unit), files=bad)
    check(not run["modified"] and not run["deleted"], "a failing command changed files", modified=run["modified"], deleted=run["deleted"])
    return {name, "nontrivial"}
