"""Rewrites section 6 of DESIGN.md (seeded changes against checks) from seeded/*/meta.json."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(V, "DESIGN.md")
s = open(D).read()
mark = "## 6. Seeded changes and the checks that catch them\n"
s = s.split(mark)[0] if mark in s else s.replace("@SEEDS@", "").rstrip() + "\n\n"
missed = json.load(open(os.path.join(V, "tools", "missed.json"))) if os.path.exists(os.path.join(V, "tools", "missed.json")) else {}
s += mark + "\nEach was written from the property's text and the code; `first missed` ones led to the strengthening named.\n\n| change | needs | caught by |\n|---|---|---|\n"
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    s += "| %s | %s | %s%s |\n" % (i, m["needs"].replace("|", "/").replace("\n", " "), m["property"], "" if i not in missed else " (first missed; " + missed[i] + ")")
open(D, "w").write(s)
