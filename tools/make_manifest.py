#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a module in gv/props."""
import json
import pathlib

V = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python -B -m gv.run"
NOTE = {
    "default": "Exploration: the property is shown on generated cases (counts in the evidence file), not proved. Trusts the generator's own model of the file "
               "format as oracle, Python float and datetime, and numpy, xarray, netCDF4, hatanaka, ncompress as libraries.",
}
TECH = {
    "C08": "property-based testing: generated files and time limits against the filtered model",
    "C09": "property-based testing: metamorphic (selection equals filtered full load) and model oracle",
    "C10": "property-based testing: metamorphic (selection equals filtered full load) and model oracle",
    "C11": "property-based testing: model of the decimation rule",
    "C12": "property-based testing: differential, fast against strict reading, and model oracle",
    "C13": "property-based testing: differential between containers, and model oracle",
    "C14": "property-based testing: differential between RINEX and CRINEX, and model oracle",
    "C15": "property-based testing: round trip through NetCDF",
    "C16": "property-based testing: stateful model-based sequences of conversions into one file",
    "C20": "property-based testing: independent reference implementation as oracle",
    "C22": "property-based testing and fuzzing: generated foreign and mutated input, exception oracle",
    "C23": "property-based testing: generated files cut at generated points, prefix oracle",
    "C25": "property-based testing: generated directories, differential against single loads",
    "C26": "property-based testing: generated command lines, differential against the API",
    "C27": "property-based testing: stateful call histories against fresh-process results",
    "C28": "property-based testing: metamorphic layout rewrites, and model oracle",
    "C29": "property-based testing: combined options against the stepwise filtered model",
}
props = [json.loads(x)["id"] for x in (V / "properties.jsonl").read_text().splitlines()]
checks, missing = [], []
for p in props:
    if (V / "gv" / "props" / f"{p.lower()}.py").is_file():
        checks.append({
            "property": p, "quick_cmd": f"{PY} {p} --tier quick", "thorough_cmd": f"{PY} {p} --tier thorough",
            "technique": TECH.get(p, "property-based testing: structured generators against an independent model oracle"),
            "level": "exploration", "level_note": NOTE.get(p, NOTE["default"]),
        })
    else:
        missing.append({"property": p, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c 'from gv import core; core.setup_environment()'", "checks": checks, "not_applicable": missing,
     "notes": "No hooks: the checks import /repo/src directly. Every check runs 8 worker processes; VERIF_SEED decides every random choice."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks;", [x["property"] for x in missing])
