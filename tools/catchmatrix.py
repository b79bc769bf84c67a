#!/usr/bin/env python3
"""print the planted bugs per property, for DESIGN.md (developer tool; no check uses it)"""
import json, os
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
m = {}
for b in sorted(os.listdir(d)):
    j = json.load(open(os.path.join(d, b, "meta.json")))
    m.setdefault(j["property"], []).append(b)
for p in sorted(m):
    print("| %s | %s |" % (p, ", ".join(m[p])))
