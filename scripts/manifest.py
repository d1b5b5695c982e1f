#!/usr/bin/env python3
"""Generates MANIFEST.json from properties.jsonl and the table below."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
G = "Sound over the abstract semantics for all paths, inputs and schedules within one goroutine's view; shared fields are havocked when their lock is not held, so interference by other goroutines is included. "
T = "Trusts the SSA construction, the abstract semantics of the analyser (tool/) and the contracts of the standard library and of the public hook interfaces; loops are closed by joins and widening, nothing is bounded or sampled."
C = json.load(open(os.path.join(root, "scripts", "checks.json")))
NA = json.load(open(os.path.join(root, "scripts", "na.json")))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bash scripts/build.sh", checks=[], not_applicable=[],
    notes="One analyser (tool/, Go, vendored x/tools) decides every property from the SSA form of /repo's working tree. See DESIGN.md.")
for p in props:
    i = p["id"]
    if i in C:
        t, n = C[i]
        m["checks"].append(dict(property=i, quick_cmd="bash scripts/check.sh %s quick" % i,
            thorough_cmd="bash scripts/check.sh %s thorough" % i, evidence_file="evidence/%s.json" % i,
            technique=t, level="other", level_note=n + " " + G + T))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "not implemented yet")))
open(os.path.join(root, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
print(len(m["checks"]), "checks", [x["property"] for x in m["not_applicable"]])
