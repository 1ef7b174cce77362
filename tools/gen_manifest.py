#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, sys
from pathlib import Path
ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
from plan import PLAN
props = [json.loads(l) for l in open(ROOT / "properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in PLAN:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    pl = PLAN[i]
    specs = sorted({u.get("spec", "ConfigTrace") for u in pl["units"]})
    models = [m["module"] for m in pl.get("models", [])]
    gens = sorted({u["gen"]["module"] for u in pl["units"] if "gen" in u})
    tech = f"TLA+ trace validation with TLC: recorded executions of the code against {', '.join(specs)}"
    if gens:
        tech += f"; TLC-generated behaviours of {', '.join(gens)} replayed into the code"
    if models:
        tech += f"; TLC exhaustive check of design models {', '.join(models)}"
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} --tier quick",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": tech,
        "level": "model_checking",
        "level_note": pl.get("note", "The specification is the oracle: every logged call and result must be a step it allows. "
            "Holds for the inputs and call histories explored (bounds in DESIGN.md and the evidence file); trusts TLC, the recorder and rustc."),
    })
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the harness uses the public API only. Specifications in spec/, recorder in harness/, driver check.py."}
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
