#!/usr/bin/env python3
"""Assembles /verif/DESIGN.md: tools/design.md, with the bounds (props.py) and the planted bugs
(seeded/) put in."""
import json, os, sys, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
import props
titles = {}
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    titles[d["id"]] = d["title"]
t = open(os.path.join(V, "tools", "design.md")).read()
def sect(m):
    i = m.group(1)
    P = props.PROPS[i]
    return "### %s — %s" % (i, titles[i])
def bounds(m):
    o = ["**Bounds.**"]
    for tier in ("quick", "thorough"):
        o.append("*%s:* " % tier + "; ".join(e["bounds"] for e in props.PROPS[m.group(1)]["entries"] if tier in e["tiers"]) + ".")
    return "\n".join(o)
t = re.sub(r"^@@(C\d\d)$", sect, t, flags=re.M)
t = re.sub(r"^@bounds (C\d\d)$", bounds, t, flags=re.M)
s = os.path.join(V, "seeded")
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(os.path.join(V, "tools", "caught.json")))
for d in sorted(os.listdir(s)):
    m = json.load(open(os.path.join(s, d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "\\|"), caught.get(d, "?")))
t = t.replace("@seeds", "\n".join(rows))
missing = [i for i in props.PROPS if "### %s " % i not in t]
assert not missing, missing
open(os.path.join(V, "DESIGN.md"), "w").write(t)
