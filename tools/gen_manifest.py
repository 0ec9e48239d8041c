#!/usr/bin/env python3
"""Writes MANIFEST.json from suites.PROPS and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from suites import PROPS
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd=f"python3 run.py {i} --tier quick", thorough_cmd=f"python3 run.py {i} --tier thorough",
                           technique=PROPS[i].get("technique", "TLA+ specification; TLC-generated behaviours replayed on the real code, recorded results checked against the specification by TLC"),
                           level=PROPS[i].get("level", "model_checking"), level_note=PROPS[i]["note"]))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=na), open(H + "/MANIFEST.json", "w"), indent=1)
open(H + "/MANIFEST.json", "a").write("\n")
