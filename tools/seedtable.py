#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (a development aid; no check uses it)."""
import json, os
S = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
print("| planted bug | breaks | needs | caught by |\n|---|---|---|---|")
for d in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, d, "meta.json")))
    print("| %s | %s | %s | %s |" % (d, m["what_it_breaks"], m["needs"], m.get("also", m["property"])))
