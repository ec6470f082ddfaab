#!/usr/bin/env python3
# merge_evidence.py MAIN PART: adds the counts of PART, of a run made in another way, to MAIN.
import json, os, sys
a, b = sys.argv[1:]
if os.path.getsize(b):
    m, p = json.load(open(a)), json.load(open(b))
    for k in ("evaluations", "distinct_nontrivial", "discarded"): m["coverage"][k] += p["coverage"][k]
    for k in ("facets", "samples"): m["coverage"][k] += p["coverage"][k]
    m["wall_s"] += p["wall_s"]; m["violations"] += p["violations"]
    json.dump(m, open(a, "w"), indent=1)
