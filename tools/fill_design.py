#!/usr/bin/env python3
"""Fill the generated blocks of DESIGN.md: bugs (from seeded/*/meta.json)."""
import os, re, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = root + "/DESIGN.md"
s = open(p).read()
t = subprocess.check_output([sys.executable, root + "/tools/bug_table.py"], text=True)
s = re.sub(r"<!-- bugs -->.*?<!-- /bugs -->", lambda _: "<!-- bugs -->\n" + t + "<!-- /bugs -->", s, flags=re.S)
open(p, "w").write(s)
