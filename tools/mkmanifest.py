#!/usr/bin/env python3
"""Writes MANIFEST.json and props.json from the tables below (and properties.jsonl). Run: python3 tools/mkmanifest.py"""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = "symbolic execution of the Go SSA of the real code, decided by SMT (z3, bit-vectors), counterexamples replayed natively"
COMMON = ["Go 1.27.3 SSA (x/tools go/ssa) of /repo and of the standard library packages it uses is executed; the executor (gosym) and z3 are trusted, cross-checked by re-running solver models of sampled paths on the compiled code",
          "encoding/binary, bytes, io, sort, utf16, strconv run as their real source; a few leaf functions (bytes.Equal, copy, string conversion, sync, reflect.Value) are modelled natively in gosym/natives.go and gosym/reflect.go",
          "map iteration is in insertion order unless the harness asks for every order"]
C = {}   # id -> dict(bounds, outside, assumptions, note)
N = {}   # id -> reason
def c(id, bounds, outside, note, assumptions=()):
    C[id] = dict(bounds=bounds, outside=outside, assumptions=COMMON + list(assumptions), note=note)
def na(id, reason):
    N[id] = reason

exec(open(os.path.join(here, "tools", "claims.py")).read())

props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, nas = [], []
for p in props:
    i = p["id"]
    if i in C:
        checks.append({"property": i, "quick_cmd": "./run.sh %s" % i, "thorough_cmd": "./run.sh %s -tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": "model_checking",
                       "level_note": "Holds for every value of the symbolic inputs within the stated bounds, nothing beyond them. " + C[i]["note"]
                       + " Trusted: the SSA executor, z3, and the models listed in DESIGN.md; bounds in props.json and in the evidence."})
    else:
        nas.append({"property": i, "reason": N.get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": checks, "not_applicable": nas,
     "notes": "Every check regenerates its encoding from /repo's working tree: go/ssa of the current source, symbolically executed. No hooks in /repo. known-findings.jsonl lists genuine defects (repaired ones as 'fixed:')."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
json.dump({i: {"bounds": v["bounds"], "outside": v["outside"], "assumptions": v["assumptions"]} for i, v in C.items()},
          open(os.path.join(here, "props.json"), "w"), indent=1)
print(len(checks), "checks;", len(nas), "not applicable")
