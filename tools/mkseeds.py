#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json. Run: python3 tools/mkseeds.py"""
import json, glob, os, re
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = []
missed = {"p05-copy-past-end"}  # see the text above the table
for f in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    name = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s |" % (name, "not caught" if name in missed else m["property"], m["needs"].replace("|", "/")))
table = "<!-- seeds -->\n| Planted bug | Caught by | What it needs to show |\n|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeds -->"
p = os.path.join(here, "DESIGN.md")
d = open(p).read()
open(p, "w").write(re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: table, d, flags=re.S))
