#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(V + "/tools/checks.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in cfg:
        c = cfg[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 tools/check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", "property-based testing"),
            "level": "exploration",
            "level_note": c.get("note", "Random search over generated inputs under AddressSanitizer; assurance is statistical, bounded by the generator."),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": c_na.get(i) if (c_na := {}) else "No check is claimed yet: the harness for this property is still being built."})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
