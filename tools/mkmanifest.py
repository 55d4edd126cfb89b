"""Writes MANIFEST.json from properties.jsonl and the property modules in vp/props."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("symbolic execution of the real Python sources (rewritten at load time, every branch decided by z3), "
        "assertions discharged by SMT, counterexamples replayed on the unmodified code")
NOTES = {}
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "vp", "props", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": f"./check {i} quick",
            "thorough_cmd": f"./check {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH,
            "level": "model_checking",
            "level_note": NOTES.get(i, "All values within the bounds listed per harness in the evidence file; beyond "
                                       "them (longer histories, larger containers) nothing is claimed."),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python -B -c 'import vp.run, vp.ctx'",
     "checks": checks, "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
