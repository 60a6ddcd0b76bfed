#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of properties and the claims below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
BFS = "explicit-state search over operation histories, every transition executed on the real code and compared with a reference table"
ENUM = "exhaustive enumeration of bounded inputs and configurations on the real code, each execution checked against an exact model or oracle"
CLAIMS = json.load(open(V + "/tools/claims.json"))
checks = []
for i in ids:
    if i not in CLAIMS: continue
    c = CLAIMS[i]
    checks.append(dict(property=i, quick_cmd="./run.sh " + i, thorough_cmd="VERIF_TIER=thorough ./run.sh " + i,
        technique={"BFS": BFS, "ENUM": ENUM}.get(c["t"], c["t"]), level="model_checking", level_note=c["n"]))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks,
    not_applicable=[dict(property=i, reason="check not built yet") for i in ids if i not in CLAIMS],
    notes="Bounded exhaustive exploration of the real code; see DESIGN.md. Known findings and fixes: known_findings.json.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
