#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, one section per property (title and
anchors from properties.jsonl, text from tools/design_props.md), the matrix of
planted bugs, tools/design_tail.md."""
import glob, json, os, re, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
rd = lambda f: open(os.path.join(H, f)).read()
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
text = dict(re.findall(r"(?ms)^## (C\d+)\n(.*?)(?=^## C\d+\n|\Z)", rd("design_props.md")))
out = [rd("design_head.md").rstrip(), "", "## Per property", ""]
for p in props:
    if p["id"] not in text:
        sys.exit("no text for " + p["id"])
    out += ["### %s %s" % (p["id"], p["title"]), "", text[p["id"]].strip(), ""]
bugs = {}
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    bugs.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
n = sum(map(len, bugs.values()))
out += ["## Planted bugs and what catches them", "",
        "%d planted bugs are kept under `seeded/`. Each compiles, passes the repository's stable tests, has a" % n,
        "demonstration, and is reported by the quick check of its own property with `VERIF_SEED=1`", 
        "(many also by checks of neighbouring properties; only the own one is listed).", "",
        "| caught by | bug | what it needs |", "|---|---|---|"]
for k in sorted(bugs):
    for name, m in bugs[k]:
        needs = m["needs"] if isinstance(m["needs"], str) else "; ".join(m["needs"])
        out.append("| %s | %s | %s |" % (k, name, needs.replace("|", "\\|").replace("\n", " ")))
out += ["", rd("design_tail.md").rstrip(), ""]
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
print(n, "planted bugs,", len(props), "properties")
