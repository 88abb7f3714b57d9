#!/usr/bin/env python3
"""Writes DESIGN.md (prose below + tables from properties.jsonl, techniques.py, known-findings.txt and seeded/*/meta.json)."""
import json, os, glob
HERE = os.path.dirname(os.path.abspath(__file__))
T = {}
def t(pid, technique, note=""): T[pid] = (technique, note)
exec(open(os.path.join(HERE, "techniques.py")).read())
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
HEAD = open(os.path.join(HERE, "design_head.md")).read()
out = [HEAD, "\n## Properties and how each is decided\n"]
for p in props:
    i = p["id"]
    out.append(f"### {i} — {p['title']}\n")
    if i in T:
        out.append(f"*Method*: {T[i][0]}.  \n{T[i][1]}  \n*Quantifies over*: {p['quantifier']['text']}.  \n*Why tests cannot settle it*: {p['why_tests_cant']}\n")
    else: out.append(f"Not claimed: {NA.get(i, 'no check yet')}\n")
out.append("\n## Genuine defects found by the checks\n\nRepaired (one `fix:` commit each in /repo) or recorded; the same list, machine-readable, is `known-findings.txt`.\n")
for l in open(os.path.join(HERE, "known-findings.txt")):
    if l.startswith(("fixed:", "known:")): out.append("- " + l.strip())
out.append("\n## Planted changes and which check reports them\n\nEach was written from the text of a property and the code, builds, passes the existing tests, and has a demonstration. "
           "`caught` is the outcome of running the property's own check on the patched tree.\n\n| id | property | needs | caught |\n|---|---|---|---|")
res = json.load(open(os.path.join(HERE, "seeded-results.json"))) if os.path.exists(os.path.join(HERE, "seeded-results.json")) else {}
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m, k = json.load(open(d)), os.path.basename(os.path.dirname(d))
    out.append(f"| {k} | {m['property']} | {m['needs'].replace('|', '/')} | {res.get(k, '?')} |")
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
