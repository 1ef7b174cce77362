#!/usr/bin/env python3
"""setup_cmd: build the recorder once for every configuration used by the checks (a check rebuilds
what changed) and parse the specifications."""
import sys
import check
from plan import PLAN
todo = {}
for p in PLAN.values():
    for c in p.get("configs", check.DEFAULT):
        todo.setdefault((c, p.get("ser", False)), set()).update(u["bin"] for u in p["units"])
try:
    for (c, ser), bins in sorted(todo.items()):
        try:
            check.build(c, sorted(bins), ser)
        except check.ToolError:
            if c not in check.OPTIONAL:
                raise
        print("built", c, "ser" if ser else "")
except check.ToolError as e:
    print(e)
    sys.exit(1)
