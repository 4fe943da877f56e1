"""Writes MANIFEST.json from properties.jsonl and sim/domains.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "sim"))
from domains import PROPS, NA
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --build",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                 "technique": "deterministic simulation with fault injection (seeded search)", "level": "exploration", "level_note": PROPS[p]["note"]} for p in ids if p in PROPS],
     "not_applicable": [{"property": p, "reason": NA.get(p, "check not built yet")} for p in ids if p not in PROPS],
     "notes": "No hooks in /repo: the seams are link-time wraps (allocation, clocks, locks), compiler-inserted basic-block callbacks, user callbacks and stream buffers."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
