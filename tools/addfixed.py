#!/usr/bin/env python3
"""records a repair: addfixed.py PROPERTY COMMIT WHAT"""
import json, os, sys
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(f))
line = "fixed: property=%s %s %s" % tuple(sys.argv[1:4])
if line not in d["fixed"]: d["fixed"].append(line)
json.dump(d, open(f, "w"), indent=1, ensure_ascii=False)
open(f, "a").write("\n")
