"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and the output of seedtest.py (stdin)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, B = "<!-- generated by tools/mkseeds.py -->", "<!-- end of planted bugs -->"
got = {}
for l in sys.stdin:
    w = l.split()
    if len(w) > 2 and w[0] in ("CAUGHT", "MISSED"):
        got.setdefault(w[1], []).append((w[2], w[0]))
out = ["| planted bug | what it needs | checks |", "|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    r = ", ".join(p if s == "CAUGHT" else f"not {p}" for p, s in got.get(i, []))
    out.append(f"| {i} | {m['needs']} | {r or m['property'] + ' (not run)'} |")
s = open(V + "/DESIGN.md").read()
i, j = s.index(A) + len(A), s.index(B)
open(V + "/DESIGN.md", "w").write(s[:i] + "\n\n" + "\n".join(out) + "\n\n" + s[j:])
