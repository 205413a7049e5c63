"""Writes MANIFEST.json from properties.jsonl and the property modules present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(V, "tools", "check_notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "mc", "props", i.lower() + ".py")) and i in NOTES:
        n = NOTES[i]
        cmd = "/opt/venv/bin/python check.py %s --tier " % i
        checks.append(dict(property=i, quick_cmd=cmd + "quick", thorough_cmd=cmd + "thorough",
                           evidence_file="evidence/%s.json" % i, technique=n["technique"],
                           level=n.get("level", "model_checking"), level_note=n["note"]))
    else:
        na.append(dict(property=i, reason=NOTES.get(i, {}).get("na", "check not built yet")))
m = dict(version=1,
         setup_cmd="/opt/venv/bin/python -c \"import sys; sys.path.insert(0,'.'); sys.dont_write_bytecode=True; from mc import boot; boot.boot(); print('ok')\"",
         checks=checks, not_applicable=na,
         notes="Pure-Python subject: importing it from /repo/src is the rebuild. No hooks in /repo are used; environment seams "
               "(scipy minimisers, clock, numpy random, file operations) are replaced from outside by the harness.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
