#!/usr/bin/env python3
"""Write MANIFEST.json from the table of checks."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props
V = os.path.dirname(HERE)
NA = {
}
ids = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 tools/build.py && python3 tools/speccheck.py",
     "checks": [], "not_applicable": [],
     "notes": "check.py ID --tier quick|thorough; no hooks in /repo, drivers use the public and protected C++ interface. "
              "See DESIGN.md."}
for i in ids:
    if i in props.TABLE:
        m["checks"].append({"property": i,
                            "quick_cmd": "python3 check.py %s --tier quick" % i,
                            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "technique": props.TECH[i], "level": "model_checking", "level_note": props.NOTE[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check has been built yet")})
with open(os.path.join(V, "MANIFEST.json"), "w") as fp:
    json.dump(m, fp, indent=1)
    fp.write("\n")
print(len(m["checks"]), "checks")
