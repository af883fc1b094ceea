"""C19 the command's results do not depend on parallelism or run history."""
from hypothesis import strategies as st

import clicase as cc
import gen
from harness import check, is_error, test
from props import c18

RULE = (
    "A case is a sequence of 2 to 4 process_climate_indices runs in one process: new inputs (other shapes, "
    "layouts and periods, or other values on the same coordinates), or earlier inputs again with other multiprocessing modes, processor counts "
    "(1-16), chunk options, scale orders or index choices, with new or earlier output names, or the earlier "
    "arguments object used again. Every output is compared with the library. Non-trivial: two runs "
    "succeeded that differ in shape or in options, each with at least 24 finite values."
)
ASSUMPTIONS = c18.ASSUMPTIONS


@st.composite
def options(draw, case):
    case = dict(case)
    case["multi"] = draw(st.sampled_from(["single", "all_but_one", "all"]))
    case["cpus"] = draw(st.integers(1, 16))
    case["chunks"] = draw(st.sampled_from(["none", "input"]))
    return case


@st.composite
def fresh(draw):
    lay = draw(cc.layout(max_rows=9, max_cols=2, min_years=5, max_years=7))
    index = draw(st.sampled_from(["spi", "spei", "spei", "pnp", "pet", "scaled"])) if lay["kind"] != "series" else draw(st.sampled_from(["spi", "pnp"]))
    n = lay["years"] * 12 + lay["extra"]
    case = {
        "lay": lay,
        "index": index,
        "source": draw(st.sampled_from(["pet", "temp"])),
        "one_file": draw(st.booleans()),
        "extra_var": False,
        "scales": draw(st.lists(st.integers(1, 12), min_size=1, max_size=2, unique=True)),
        "cal": draw(gen.window(lay["first"], n, 12, kinds=["full", "inside", "tail"], min_len=5)),
        "chunked": draw(st.booleans()),
    }
    return draw(options(case))


@st.composite
def sequence(draw):
    runs = [{"case": draw(fresh()), "input": 0, "base": 0, "same_arguments": None}]
    for i in range(1, draw(st.integers(2, 4))):
        kind = draw(st.sampled_from(["fresh", "fresh", "options", "options", "scales", "overwrite", "arguments", "arguments", "data", "data"]))
        j = draw(st.integers(0, i - 1))
        run = {"case": dict(runs[j]["case"]), "input": runs[j]["input"], "base": i, "same_arguments": None}
        if kind == "fresh":
            run.update(case=draw(fresh()), input=i)
        elif kind == "data":
            # other values on the same coordinates, in new files or in place of the earlier results
            case = draw(options(run["case"]))
            case["lay"] = dict(case["lay"], seed=case["lay"]["seed"] + draw(st.integers(1, 50)))
            run.update(case=case, input=i, base=draw(st.sampled_from([i, runs[j]["base"]])))
        elif kind == "arguments":
            run.update(same_arguments=j, base=runs[j]["base"])
        elif kind == "overwrite":
            run.update(case=draw(options(run["case"])), base=runs[j]["base"])
        elif kind == "options":
            run["case"] = draw(options(run["case"]))
        else:
            case = draw(options(run["case"]))
            case["scales"] = draw(st.sampled_from([case["scales"][::-1], case["scales"][:1], case["scales"] + [5 if 5 not in case["scales"] else 13], [4] + [s for s in case["scales"] if s != 4]]))
            run["case"] = case
        runs.append(run)
    return {"runs": runs}


@test("C19", "sequence", sequence(), quick=171, cli=True)
def runs(case, worker):
    """Each run of the sequence writes the library values, whatever ran before and however the
    work is split."""
    steps, wants, where, written = [], [], [], set()
    args_of = {}
    for i, run in enumerate(case["runs"]):
        c = run["case"]
        write, args, arrays = c18.inputs(c, "in%d" % run["input"])
        want = c18.expected(c, worker, arrays, "out%d" % run["base"])
        if want is None:
            return {"rejected by the library"}
        if run["input"] == i:
            steps += write
        step = c18.run_step(c, args, "out%d" % run["base"])
        if run["same_arguments"] is not None:
            step["same_arguments"] = where[run["same_arguments"]]
        where.append(len(steps))
        steps.append(step)
        wants.append(want)
    report = worker.cli(steps)
    good = set()
    for i, (run, want) in enumerate(zip(case["runs"], wants)):
        c, r = run["case"], report[where[i]]
        what = "run %d of %d (%s, %s of %d processors)" % (i + 1, len(wants), c["index"], c["multi"], c["cpus"])
        check(r.get("ok") is True, "%s: the command failed on a valid input" % what, error=r.get("error"))
        check(not r["deleted"], "%s: files were deleted" % what, deleted=r["deleted"])
        check(set(r["created"]) == set(want) - written, "%s: unexpected set of new files" % what, got=r["created"], expected=sorted(set(want) - written))
        check(set(r["modified"]) <= set(want), "%s: other files were changed" % what, modified=r["modified"])
        written |= set(want)
        for path in sorted(want):
            if path in r["files"]:
                var, values = want[path]
                cc.check_file(c["lay"], r["files"], path, var, values, "%s: %s" % (what, var))
        if any(cc.informative(v) for _, v in want.values()):
            lay = c["lay"]
            good.add((lay["kind"], lay["rows"], lay["cols"], c["multi"], c["cpus"], c["chunks"], c["index"], tuple(c["scales"])))
    out = {run["case"]["multi"] for run in case["runs"]}
    if len(good) > 1:
        out.add("nontrivial")
    if any(r["case"]["lay"]["rows"] > 1 and r["case"]["cpus"] < r["case"]["lay"]["rows"] for r in case["runs"]):
        out.add("more rows than processors")
    return out
