#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from spec/properties.py and lib/registry.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, "lib"))
from properties import PROPS
from registry import CHECKS
NA = {
    "C30": "quantifies over all histories of updates of packed bitmaps whose contents no static argument in reach bounds; "
           "the structural parts it rests on are claimed separately (C03, C05-C10, C16)",
    "C31": "a statistical property of key distributions, not of the shape of the code",
    "C32": "depends on the joint run-time value of counters and bitmaps after arbitrary update histories",
    "C33": "linearizability of histories; the lock and grace-period disciplines it rests on are claimed as C12-C14",
    "C34": "termination depends on run-time values (unequal boundary keys, scheduling of other threads)",
}
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
checks = []
for p in PROPS:
    c = CHECKS.get(p["id"])
    if c:
        checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick",
                       "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                       "technique": c["technique"], "level": "other", "level_note": c["explanation"]})
na = [{"property": p["id"], "reason": NA.get(p["id"], "no check built yet")} for p in PROPS if p["id"] not in CHECKS]
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "static analysis of the LLVM IR of /repo's current tree; see DESIGN.md"},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
