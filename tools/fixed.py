"""tools/fixed.py PROPERTY "what failed"  -> records /repo HEAD as a repair in known_findings.json"""
import json, os, subprocess, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
L = json.load(open(p)) if os.path.exists(p) else []
prop, what = sys.argv[1:3]
c = sys.argv[3] if len(sys.argv) > 3 else subprocess.check_output(
    ["git", "-C", "/repo", "rev-parse", "--short", "HEAD"], text=True).strip()
L.append(dict(property=prop, status="fixed", commit=c, what=what,
              text="fixed: property=%s %s %s" % (prop, c, what)))
json.dump(L, open(p, "w"), indent=1)
