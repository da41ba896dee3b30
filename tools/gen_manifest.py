"""Writes MANIFEST.json from the list of claimed checks (CLAIMED) and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from claimed import CLAIMED, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    if p in CLAIMED:
        tech, level, note = CLAIMED[p]
        m["checks"].append({"property": p, "quick_cmd": "./check %s" % p, "thorough_cmd": "VERIF_TIER=thorough ./check %s" % p,
                            "technique": tech, "level": level, "level_note": note})
    else:
        m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE.get(p, "model checking applies, but the check for this property is not built yet (see DESIGN.md for its design)")})
m["notes"] = "No hooks are needed in /repo. See DESIGN.md."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
