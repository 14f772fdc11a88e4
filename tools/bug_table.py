#!/usr/bin/env python3
"""Table of the planted bugs for DESIGN.md (from seeded/*/meta.json)."""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| bug | property = check that catches it | needs | breaks |\n|---|---|---|---|")
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    print(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |".replace("\n", " "))
