#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the claims table (kept as the editable source)."""
import json, os
ENUM = "exhaustive bounded exploration of the real code against a reference model"
HIST = "explicit-state search over operation histories of the real code, compared step by step with a reference model"
INTER = "stateless model checking: all thread interleavings up to a preemption bound under a controlled scheduler"
CLAIMS = {}
def c(pid, tech, note): CLAIMS[pid] = (tech, note)
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "claims.py")).read())
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[])
if HOOKS: m["hooks"] = HOOKS
for p in props:
    i = p["id"]
    if i in CLAIMS:
        t, n = CLAIMS[i]
        m["checks"].append(dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
                                technique=t, level="model_checking", level_note=n))
    else:
        m["not_applicable"].append(dict(property=i, reason="no check decides it in this revision: its harness was not built in the time available"))
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "unclaimed")
