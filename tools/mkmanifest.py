#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/config.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from config import PROPS, NOTE, SIM
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py " + i + " --tier thorough",
                           evidence_file="evidence/%s.json" % i, technique=c["technique"], level=c["level"],
                           level_note=NOTE + (SIM if c.get("sim") else "") + c.get("note", "")))
m = dict(version=1, setup_cmd="python3 check.py --setup",
         checks=checks, not_applicable=[dict(property=i, reason="The check of this property is still being built.") for i in ids if i not in PROPS],
         notes="No hooks: the harnesses use only the public interface of the library and a simulated Networking TS (shim/experimental/net). Reads /repo/include only.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), "claimed,", len(ids) - len(checks), "not claimed")
