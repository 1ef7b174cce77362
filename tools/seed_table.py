#!/usr/bin/env python3
"""writes the table of planted bugs between the seeds markers of DESIGN.md"""
import json, re
from pathlib import Path
R = Path(__file__).resolve().parent.parent
rows = ["| planted bug | check that reports it | needs | breaks |", "|---|---|---|---|"]
for d in sorted((R / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
p = R / "DESIGN.md"
s = p.read_text()
s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
p.write_text(s)
