#!/usr/bin/env python3
"""Regenerates DESIGN.md from tools/DESIGN.in.md, the table below, lib/run.py and tools/seeded.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "tools")]
from run import AREAS
from design_props import D
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = ["## Properties\n"]
for p in props:
    pid = p["id"]
    out.append("### %s: %s\n" % (pid, p["title"]))
    if pid not in AREAS:
        out.append("(not built yet)\n")
    d = D.get(pid)
    if d:
        for k in ("spec", "oracle", "bounds", "why", "limits"):
            if d.get(k):
                out.append("- *%s*: %s" % (dict(spec="Specified", oracle="Binding and oracle", bounds="Bounds and cost", why="Beyond tests", limits="Not covered")[k], d[k]))
        out.append("")
s = os.path.join(V, "tools", "seeded.json")
tab = ["## Planted bugs\n", "Each is in `seeded/<id>/` (patch, demonstration, description). The last column is the result of the quick checks.\n",
       "| id | property | needs | caught by |", "|---|---|---|---|"]
res = json.load(open(s)) if os.path.exists(s) else {}
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    f = os.path.join(V, "seeded", i, "meta.json")
    if os.path.exists(f):
        m = json.load(open(f))
        tab.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], ", ".join(res.get(i, [])) or "not run / missed"))
t = open(os.path.join(V, "tools", "DESIGN.in.md")).read()
open(os.path.join(V, "DESIGN.md"), "w").write(t.replace("@@PROPS@@", "\n".join(out)).replace("@@SEEDED@@", "\n".join(tab)))
