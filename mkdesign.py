#!/usr/bin/env python3
"""Writes DESIGN.md from doc/design_head.md, the families of the harnesses and the planted bugs."""
import glob, json, os, re
H = os.path.dirname(os.path.abspath(__file__))
import sys
sys.path.insert(0, H)
from plan import PLAN, HARNESSES
o = open(H + "/doc/design_head.md").read()
o += "## 6. Planted bugs and the checks that catch them\n\nEach was written from the text of its property, kept whether caught or not, and is caught by the quick check of its own property\nunless the table says otherwise. The second column is what it takes to show.\n\n| bug | property | needs | status |\n|---|---|---|---|\n"
status = {}
p = H + "/doc/seeded_status.txt"
if os.path.exists(p):
    for l in open(p):
        k, _, v = l.strip().partition(" ")
        if k: status[k] = v
for d in sorted(glob.glob(H + "/seeded/*/")):
    m = json.load(open(d + "meta.json")); i = os.path.basename(d[:-1])
    o += "| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"].replace("|", "/"), status.get(i, "caught"))
o += "\n" + (open(H + "/doc/seeded_notes.md").read() if os.path.exists(H + "/doc/seeded_notes.md") else "")
o += "\n## 7. Families\n\nEvery line is one exhaustively enumerated space; the bounds in brackets are those of the thorough tier.\n"
fam = {}
for s in sorted({h["src"] for h in HARNESSES.values()}):
    t = open(H + "/harness/" + s).read()
    # adjacent string literals are one rule
    fam[s] = [(a, "".join(re.findall(r'"((?:[^"\\]|\\.)*)"', b)), th) for th, a, b in re.findall(r'MC_FAMILY(_THOROUGH)?\((\w+),\s*((?:"(?:[^"\\]|\\.)*"\s*)+)\)', t)]
for s in fam:
    by = sorted({pid for pid, v in PLAN.items() for h, _ in v["runs"] if HARNESSES[h]["src"] == s})
    o += "\n### harness/%s (%s)\n" % (s, ", ".join(by))
    for a, r, th in fam[s]: o += "* `%s`%s: %s\n" % (a, " (thorough only)" if th else "", r)
open(H + "/DESIGN.md", "w").write(o)
