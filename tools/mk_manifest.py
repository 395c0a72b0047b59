#!/usr/bin/env python3
"""Regenerate MANIFEST.json. CLAIMED lists the harness packages that exist."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
TECH = {
 "num": "property-based testing: generated operands vs exact (math/big, IEEE) arithmetic oracle; exhaustive at 8 bits",
 "coll": "stateful model-based testing: generated operation histories vs a reference model",
 "misc": "property-based testing: generated values vs a reference model",
 "conc": "property-based testing over generated schedules (virtual clock and real goroutines) vs history oracle",
 "race": "stateful property-based testing under the race detector: generated concurrent histories vs the same histories run alone, and vs happens-before",
 "mem": "stateful property-based testing: generated histories, judged by weak pointers, heap, goroutine and descriptor counts",
 "fsx": "stateful model-based testing: generated operation histories and injected faults vs a model file system",
}
pk = {}
for pkg, ids in {
  "num": list(range(1, 10)) + [37, 46], "coll": list(range(10, 26)) + [41, 43, 44, 48, 49],
  "misc": [26, 27, 28, 29, 30, 39, 40, 42], "conc": [34, 35, 36, 38], "mem": "stateful property-based testing: generated histories, judged by weak pointers, heap, goroutine and descriptor counts",
 "fsx": [31, 32, 33], "race": [45, 47, 51], "mem": [50]}.items():
    for i in ids: pk["C%02d" % i] = pkg
checks, na = [], []
for p in props:
    i = p["id"]
    pkg = pk[i]
    src = ""
    d = os.path.join(H, "harness", pkg)
    if os.path.isdir(d):
        for f in os.listdir(d):
            src += open(os.path.join(d, f)).read()
    if re.search(r'ID:\s*"%s"' % i, src):
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i,
          "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
          "evidence_file": "evidence/%s.json" % i, "technique": TECH[pkg], "level": "exploration",
          "level_note": "Random search with shrinking over the generator described in DESIGN.md (%s) against an independent oracle; no proof of absence. Assumes the Go toolchain, the standard library and the oracle's own model are right." % i})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": na,
  "notes": "No hooks: every property is checked through the public API, so /repo carries only fix: commits. Known findings: known_findings.txt."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
