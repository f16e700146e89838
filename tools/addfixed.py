#!/usr/bin/env python3
"""addfixed.py PROPERTY COMMIT "what failed" ...: record repaired defects (triples) in known_findings.json."""
import json, os
import sys
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
d = json.load(open(f))
a = sys.argv[1:]
for i in range(0, len(a), 3):
    s = "fixed: property=%s %s %s" % tuple(a[i:i + 3])
    if s not in d["fixed"]:
        d["fixed"].append(s)
open(f, "w").write(json.dumps(d, indent=1) + "\n")
