#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the registry and the property list"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    m = registry.PROPS.get(i)
    if m:
        checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i,
                       "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                       "technique": "symbolic execution of the real sources' LLVM IR, every branch and assertion decided by Z3 (symx)",
                       "level": "other", "level_note": registry.NOTE + " " + m.get("note", "")})
    else:
        na.append({"property": i, "reason": registry.NOT_APPLICABLE.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 tools/build_engine.py", "checks": checks, "not_applicable": na,
           "notes": "see DESIGN.md; bounds per unit are in tools/registry.py and in the evidence files"},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
