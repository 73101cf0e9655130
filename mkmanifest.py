#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules."""
import importlib, json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, "sa"))
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
NA = {
}
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(H, "sa", "props", i.lower() + ".py")):
        m = importlib.import_module("props." + i.lower())
        checks.append(dict(property=i, quick_cmd="./check.sh %s" % i, thorough_cmd="./check.sh %s thorough" % i,
                           technique=m.TECH, level=m.LEVEL, level_note=m.EXPLAIN))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no static check built yet")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na), open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
