#!/usr/bin/env python3
"""Writes MANIFEST.json from what props/ holds."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": ("property-based testing: random pipelines and band vectors against range and extreme-value invariants", "Random sampling of signals, modes and per-band vectors; trusts the FFT and TFLite stand-ins for the whole-pipeline and lattice parts."),
}
exec(open(os.path.join(here, "tools", "levels.py")).read()) if os.path.exists(os.path.join(here, "tools", "levels.py")) else None
NA = {}
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    i = json.loads(line)["id"]
    if any(os.path.exists(os.path.join(here, "props", i.lower() + e)) for e in (".cc", ".py")) and i in T:
        checks.append({"property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough",
                       "technique": T[i][0], "level": "exploration", "level_note": T[i][1]})
    else:
        na.append({"property": i, "reason": NA.get(i, "Its check is not built yet.")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Every check rebuilds from /repo's working tree (VERIF_REPO overrides it for development). See DESIGN.md."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
