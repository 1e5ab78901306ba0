#!/usr/bin/env python3
"""Rewrites the section "Properties" of DESIGN.md from properties.jsonl, claims.py and the texts below.
Run: python3 tools/mkdesign.py"""
import json, os, re, subprocess
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
C, N = {}, {}
def c(id, bounds, outside, note, assumptions=()): C[id] = (bounds, outside, note)
def na(id, reason): N[id] = reason
exec(open(os.path.join(here, "tools", "claims.py")).read())
HOW = {}
for m in re.finditer(r'^(P\d\d): (.*?)(?=^P\d\d: |\Z)', open(os.path.join(here, "tools", "design.txt")).read(), re.M | re.S):
    HOW[m[1]] = ' '.join(m[2].split())
out = []
def wrap(s, first, rest):
    import textwrap
    return textwrap.fill(s, 118, initial_indent=first, subsequent_indent=rest, break_long_words=False, break_on_hyphens=False)
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    if i in N:
        out.append(wrap("Not applicable: " + N[i] + ".", "", "") + "\n")
        continue
    b, o, note = C[i]
    out.append(wrap(HOW.get(i, note), "", "") + "\n")
    out.append(wrap("Harnesses: " + ", ".join(sorted(set(re.findall(r"^func (%s_\w+)\(" % i, subprocess.run("cat %s/harness/h/*.go" % here, shell=True, capture_output=True, text=True).stdout, re.M)))) + ".", "", "") + "\n")
    out.append("Bounds (quick; thorough in brackets):\n")
    out += [wrap(x, "* ", "  ") for x in b]
    out.append("")
    out.append(wrap("Outside: " + "; ".join(o) + ".", "", "") + "\n")
    out.append(wrap("Out of reach of tests: " + p["why_tests_cant"], "", "") + "\n")
d = open(os.path.join(here, "DESIGN.md")).read()
a, rest = d.split("## Properties\n", 1)
m = re.search(r"^## ", rest, re.M)
tail = rest[m.start():] if m else ""
open(os.path.join(here, "DESIGN.md"), "w").write(a + "## Properties\n\n(Generated by tools/mkdesign.py from properties.jsonl, tools/claims.py and tools/design.txt.)\n\n" + "\n".join(out) + "\n" + tail)
