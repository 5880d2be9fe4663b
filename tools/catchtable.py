#!/usr/bin/env python3
"""prints the table of planted bugs of DESIGN.md; who catches what is noted here after running the checks"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CAUGHT = {"s03": "C04, C02", "s04": "C13, C05", "s05": "C11, C15", "s07": "C15, C21, C06", "s29": "C15, C21"}
print("| bug | needs | caught by |\n|---|---|---|")
for d in sorted(os.listdir(ROOT + "/seeded"), key=lambda x: int(x[1:3])):
    m = json.load(open(ROOT + "/seeded/%s/meta.json" % d))
    print("| %s | %s | %s |" % (d, m["needs"], CAUGHT.get(d[:3], m["property"])))
