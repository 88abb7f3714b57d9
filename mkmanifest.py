#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (every claimed property is one line)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
BASE = ("Decides the stated rules for every path of the abstract program (all inputs, all sizes) built from the current source; trusts the "
        "hand-written models of numpy/scipy/torch/spglib/stdlib calls. Constructs the analysis cannot resolve are reported as undecided, never as violations. ")
T = {}
def t(pid, technique, note=""): T[pid] = (technique, BASE + note)
exec(open(os.path.join(HERE, "techniques.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 -m compileall -q rnstatic",
     "checks": [{"property": i, "quick_cmd": f"python3 run.py {i} --tier quick", "thorough_cmd": f"python3 run.py {i} --tier thorough",
                 "technique": T[i][0], "level": "other", "level_note": T[i][1]} for i in ids if i in T],
     "not_applicable": [{"property": i, "reason": NA.get(i, "no check yet")} for i in ids if i not in T]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
