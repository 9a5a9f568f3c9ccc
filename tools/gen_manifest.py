#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl, the harnesses present and the tables below"""
import json, re, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}   # property -> reason it is not claimed
NOTE = {} # property -> what bounds apply, in words
exec(open(os.path.join(V, "tools", "notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
have = set()
for f in glob.glob(os.path.join(V, "harness", "*", "*.go")):
    have |= set(re.findall(r"^func H_(C\d\d)_", open(f).read(), re.M))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif i not in have:
        na.append({"property": i, "reason": "check under construction"})
    else:
        checks.append({
            "property": i,
            "quick_cmd": f"bash check.sh {i} quick",
            "thorough_cmd": f"bash check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "symbolic execution of go/ssa of the current source, decided by SMT (z3)" +
                (", schedules explored by partial-order reduction" if i in CONC else ""),
            "level": "model_checking",
            "level_note": "holds for every value of the symbolic inputs within the bounds; " + NOTE.get(i, "bounds in the evidence file"),
        })
m = {"version": 1, "setup_cmd": "bash tools/build.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
