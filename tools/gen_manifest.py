#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the list of implemented checks."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(V, "bin/check.py")).read()
areas = eval(re.search(r"^AREAS = (\{.*?\})$", src, re.M | re.S).group(1))
claimed = sorted(x for ids in areas.values() for x in ids.split())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
notes = json.load(open(os.path.join(V, "tools/levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        n = notes.get(i, {})
        checks.append({"property": i,
            "quick_cmd": "VERIF_TIER=quick python3 bin/check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + i,
            "technique": n.get("technique", "TLA+ specification checked with TLC; recorded traces of the real code validated against it"),
            "level": "model_checking",
            "level_note": n.get("note", "TLC explores the specification within the stated bounds; the code is bound by validating every recorded execution. Trusts TLC, the harness' event recording and the assumptions in the evidence file.")})
    else:
        na.append({"property": i, "reason": notes.get(i, {}).get("reason", "check not built yet")})
json.dump({"version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks: the checks observe /repo's code through its own interfaces, interposed system functions and user-supplied objects", "source_commits": []},
    "checks": checks, "not_applicable": na,
    "notes": "All checks: specifications in spec/, harnesses in harness/, driver bin/check.py. See DESIGN.md."},
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
