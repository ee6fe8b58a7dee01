#!/usr/bin/env python3
"""Refresh the generated tables of DESIGN.md (property table from runner/props.py, seeds from seeded/*/meta.json + tools/seeds.txt)."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ROOT + "/runner")
from props import PROPS
from design import ROWS
def block(s, tag, body): return re.sub(r"(<!--%s-->\n).*?(<!--/%s-->)" % (tag, tag), lambda m: m.group(1) + body + m.group(2), s, flags=re.S)
t = "| id | what is executed and watched | oracle | reach and bounds |\n|----|----|----|----|\n"
for p in PROPS: t += "| %s %s | %s |\n" % (p["id"], p["title"], " | ".join(ROWS[p["id"]]))
res = dict(l.strip().split(None, 1) for l in open(ROOT + "/tools/seeds.txt") if l.strip() and not l.startswith("#"))
u = "| change | property | needs | detected by |\n|----|----|----|----|\n"
for n in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (ROOT, n))); u += "| %s | %s | %s | %s |\n" % (n, m["property"], m["needs"], res.get(n, "not yet run"))
f = ROOT + "/DESIGN.md"; s = open(f).read(); s = block(s, "TABLE", t); s = block(s, "SEEDS", u); open(f, "w").write(s)
