#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks (vlib/props.py)."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vlib"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 vlib/main.py --setup",
    "checks": [],
    "not_applicable": [],
    "notes": "Every check builds the analyser (engine/va.cpp, about 10 s) if build/ does not hold it, compiles the witnesses against /repo's current headers and decides from the resulting IR or AST. No hook is needed in /repo.",
}
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 vlib/main.py %s" % i,
            "thorough_cmd": "python3 vlib/main.py %s thorough" % i,
            "technique": p["technique"],
            "level": p.get("level", "proof"),
            "level_note": p.get("note") or "; ".join(p["rules"]),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": props.NA.get(i, "not decided yet (check under construction)")})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "checks")
