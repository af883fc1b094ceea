#!/usr/bin/env python3
"""Rewrites MANIFEST.json from the property list and the modules in pbt/props."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECHNIQUE = {
    "C01": "property-based testing: generated records vs an independent reference of the gamma method",
    "C02": "property-based testing: generated records vs an independent reference of the Pearson III method",
    "C03": "property-based testing: reference computation plus metamorphic relations of P - PET",
    "C04": "property-based testing: invariants (length, range, missing pattern) over generated calls",
    "C05": "property-based testing: metamorphic relations between pairs of generated runs",
    "C06": "property-based testing: metamorphic perturbation outside the calibration years, reference for fallback",
    "C07": "property-based testing: differential (direct vs precomputed parameters) and reference transform",
    "C08": "property-based testing: generated series vs a direct sliding-sum reference",
    "C09": "property-based testing: reference percent of normal, metamorphic and rejection checks",
    "C10": "property-based testing: generated temperatures vs an independent Thornthwaite/FAO-56 reference",
    "C11": "property-based testing: generated temperatures vs an independent FAO-56 eq. 52 reference",
    "C12": "property-based testing: generated years vs the definition, metamorphic and rejection checks",
    "C13": "property-based testing: round trips and a date-by-date reference over start years",
    "C14": "property-based testing: L-moments of the fitted distribution vs the sample's, equivariance",
    "C15": "property-based testing: independent reference model of the Palmer water balance and Z",
    "C16": "property-based testing: generated Z histories vs an independent spell state machine",
    "C17": "stateful property-based testing: call histories on shared arrays vs each call isolated",
    "C18": "property-based testing: generated NetCDF inputs, command output vs library per cell",
    "C19": "stateful property-based testing: command runs under varied parallelism and history, differential",
    "C20": "property-based testing: metamorphic unit conversion of command inputs",
    "C21": "property-based testing: generated NetCDF grids, spi command output vs library per cell",
    "C22": "stateful property-based testing: save/load round trips of fitting parameters vs the library",
    "C23": "fuzzing of command inputs and options: rejection and acceptance oracle, files untouched",
    "C24": "fuzzing of library arguments: rejection oracle and equivalence of array representations",
    "C25": "property-based testing: helpers vs their definitions",
}
NOTE = (
    "Hypothesis-generated cases run against the code imported from /repo/src in the project's interpreter; "
    "a violation is re-run from its shrunk case in a fresh interpreter before it is reported. Assurance is "
    "that of the search: no counterexample among the cases counted in the evidence. Trusts the reference "
    "or relation in pbt/ and numpy/scipy of the generator side."
)
props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
checks, missing = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "pbt/props/%s.py" % i.lower())):
        checks.append({
            "property": i,
            "quick_cmd": "python3-vt run.py " + i,
            "thorough_cmd": "python3-vt run.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": TECHNIQUE[i],
            "level": "exploration",
            "level_note": NOTE,
        })
    else:
        missing.append({"property": i, "reason": "check not built yet"})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": missing}, f, indent=1)
    f.write("\n")
