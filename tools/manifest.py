#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and lib/checks.py."""
import json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "lib"))
from checks import CHECKS
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines() if l.strip()]
NOTE = ("Generated-input search with a seeded choice-sequence engine and shrinking, executed against the real code compiled with "
        "AddressSanitizer and UBSan from /repo's working tree; every case is judged by an explicit oracle. "
        "Evidence of absence only for the inputs explored; no proof. Trusts gcc, its sanitizers, long double arithmetic of the reference model")
checks = []
na = []
for p in props:
    s = CHECKS.get(p["id"])
    if s and not all((V / "harness" / x).exists() for x in s.get("sources", [])): s = None
    if not s:
        na.append(dict(property=p["id"], reason="no check built yet"))
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"python3 run.py {p['id']}", thorough_cmd=f"python3 run.py {p['id']} --tier thorough",
                       evidence_file=f"evidence/{p['id']}.json", technique=s.get("technique", "property-based testing, shrinking to a replay file: " + s.get("oracle", "generated inputs against a reference model")),
                       level="exploration", level_note=(NOTE.replace("AddressSanitizer and UBSan", "ThreadSanitizer") if "-fsanitize=thread" in s.get("san", []) else NOTE) + s.get("note", "") + "."))
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the checks only include its headers and link its sources.")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(na), "not claimed")
