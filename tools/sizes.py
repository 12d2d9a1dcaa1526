"""python3 tools/sizes.py ID...: take the sizes of the worlds from the evidence of the last run of these checks (on the unchanged tree) into mc/sizes.json"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(V, "mc", "sizes.json")
sizes = json.load(open(path)) if os.path.exists(path) else {}
for p in sys.argv[1:]:
    ev = json.load(open(os.path.join(V, "evidence", p + ".json")))
    c = ev["coverage"]
    assert c["exhaustive"] and not ev["violations"], p
    sizes.setdefault(p, {})[ev["tier"]] = {k[12:]: v for k, v in c.items() if k.startswith("transitions_")}
json.dump(sizes, open(path, "w"), indent=1, sort_keys=True)
open(path, "a").write("\n")
