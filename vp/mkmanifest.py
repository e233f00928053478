import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vp"))
from registry import PROPS
try:
    from registry import NA
except ImportError:
    NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [
        {"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i, "technique": PROPS[i]["technique"], "level": PROPS[i]["level"],
         "level_note": PROPS[i]["note"]}
        for i in ids if i in PROPS
    ],
    "not_applicable": [{"property": i, "reason": NA.get(i, "no contract built yet")} for i in ids if i not in PROPS],
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
