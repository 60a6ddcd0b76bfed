#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = ["| planted bug | property | caught by | needs |", "|---|---|---|---|"]
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m.get('caught_by', m['property'])} | {m['needs']} |")
p = root / "DESIGN.md"
s = p.read_text()
new = "<!-- table -->\n" + "\n".join(rows) + "\n<!-- /table -->"
if "SEEDED_TABLE" in s:
    s = s.replace("SEEDED_TABLE", new)
else:
    s = re.sub(r"<!-- table -->.*?<!-- /table -->", lambda _: new, s, flags=re.S)
p.write_text(s)
