"""Rewrites the generated part of DESIGN.md (bounds and assumptions per property) from the property modules."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
A, B = "<!-- generated by tools/mkdesign.py -->", "<!-- end of generated part -->"
out = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    m = importlib.import_module("vp.props." + p["id"].lower())
    out.append(f"### {p['id']} {p['title']}\n")
    for h in m.HARNESSES:
        out.append(f"- `{h.name}`: {h.bounds or h.about}")
    for a in getattr(m, "ASSUMPTIONS", []):
        out.append(f"- *assumed*: {a}")
    out.append("")
s = open(os.path.join(V, "DESIGN.md")).read()
i, j = s.index(A) + len(A), s.index(B)
open(os.path.join(V, "DESIGN.md"), "w").write(s[:i] + "\n\n" + "\n".join(out) + "\n" + s[j:])
