"""Regenerate properties.jsonl and MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from properties_src import P
from checks_src import CHECKS, NOT_APPLICABLE, NOTES
V = os.path.dirname(HERE)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)
checks = []
for i in ids:
    if i in CHECKS:
        tech, note = CHECKS[i][:2]
        level = CHECKS[i][2] if len(CHECKS[i]) > 2 else "model_checking"
        checks.append({
            "property": i,
            "quick_cmd": "./run.py %s --tier quick" % i,
            "thorough_cmd": "./run.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": tech, "level": level, "level_note": note})
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")} for i in ids if i not in CHECKS]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na, "notes": NOTES}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
