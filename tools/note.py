"""tools/note.py ID "technique" "note": registers a check in check_notes.json and rewrites MANIFEST.json"""
import json, os, runpy, sys
H = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(H, "check_notes.json")
d = json.load(open(p))
d[sys.argv[1]] = dict(technique=sys.argv[2], note=sys.argv[3])
json.dump(d, open(p, "w"), indent=1)
runpy.run_path(os.path.join(H, "gen_manifest.py"))
