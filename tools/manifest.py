#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.join(HERE, "..")
NOTES = json.load(open(os.path.join(HERE, "levels.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = "checks/%s.py" % p.lower()
    if os.path.exists(os.path.join(V, f)) and p in NOTES:
        checks.append({"property": p, "quick_cmd": "python3 %s quick" % f, "thorough_cmd": "python3 %s thorough" % f,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": NOTES[p]["technique"], "level": "model_checking", "level_note": NOTES[p]["note"]})
    else:
        na.append({"property": p, "reason": NOTES.get("_na", {}).get(p, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "CDEC_VERIF", "enable": "no hooks were needed: the checks compile /repo's unmodified sources together with harnesses in /verif/harness", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; see DESIGN.md"}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
