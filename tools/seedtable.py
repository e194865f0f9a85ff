#!/usr/bin/env python3
"""Prints DESIGN.md's table of planted bugs from seeded/*/meta.json and rewrites it in place."""
import json, pathlib, re
V = pathlib.Path(__file__).resolve().parent.parent
C = json.loads((V / "tools/caught.json").read_text())
rows = ["| planted bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for m in sorted((V / "seeded").glob("*/meta.json")):
    d = json.loads(m.read_text())
    rows.append("| %s | %s | %s | %s | %s |" % (m.parent.name, d["property"], d["what_it_breaks"].replace("|", "\\|"), d["needs"].replace("|", "\\|"), C.get(m.parent.name, "?")))
p = V / "DESIGN.md"
s = p.read_text()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = s.replace("SEEDTABLE", t) if "SEEDTABLE" in s else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: t, s, flags=re.S)
p.write_text(s)
print(len(rows) - 2)
