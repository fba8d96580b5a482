#!/usr/bin/env python3
"""Prints the table of planted bugs of DESIGN.md from seeded/*/meta.json."""
import json, os
MISSED_FIRST = set(l.strip() for l in open(os.path.join(os.path.dirname(__file__), "missed_first.txt")))
R = os.path.join(os.path.dirname(__file__), "..", "seeded")
for i in sorted(os.listdir(R)):
    m = json.load(open(os.path.join(R, i, "meta.json")))
    print("| %s | %s | %s: %s | yes%s |" % (i, m["property"], m["needs"], m["what_it_breaks"], " +" if i in MISSED_FIRST else ""))
