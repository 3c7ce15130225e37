#!/usr/bin/env python3
"""Write DESIGN.md from design_head.md, props.py, the checks' rules and the planted bugs."""
import ast
import glob
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props  # noqa: E402


def rule(pid):
    tree = ast.parse(open(f"{VERIF}/checks/{pid}.py").read())
    for s in tree.body:
        if isinstance(s, ast.Assign) and s.targets[0].id == "RULE":
            return ast.literal_eval(s.value)
    return None


mfile = f"{HERE}/measured.json"
measured = json.load(open(mfile)) if os.path.exists(mfile) else {}
for f in glob.glob(sys.argv[1] + "/C*.json") if len(sys.argv) > 1 else []:
    d = json.load(open(f))
    if "violation" not in f:
        c = d["coverage"]
        measured[d["property"]] = {"text": f"{c['obligations']} obligations over {c['functions_analysed']} functions (" + ", ".join(f"{v} {k}" for k, v in c["counts"].items()) + ")."}
        json.dump(measured, open(mfile, "w"), indent=1)
seeds = {}
for f in sorted(glob.glob(f"{VERIF}/seeded/*/meta.json")):
    m = json.load(open(f))
    seeds.setdefault(m["property"], []).append((f.split("/")[-2], m))
out = [open(f"{HERE}/design_head.md").read(), "## The properties, one by one\n"]
for pid in sorted(props.P):
    p = props.P[pid]
    e = p["entry"]
    out.append(f"### {pid}: {e['title']}\n")
    out.append(f"*Quantifies over*: {e['quantifier']['text']}\n")
    out.append(f"*Analysed*: " + "; ".join(f"{m['name']} ({m['where']})" for m in e["anchors"]["mechanism"]) + ".\n")
    out.append(f"*Rule applied*: {rule(pid)}\n")
    out.append(f"*Method*: {p['technique']}.\n")
    out.append(f"*Bounds and trust*: {p['note'].replace(props.TRUST, '').strip()}\n")
    out.append(f"*Beyond tests*: {e['why_tests_cant']}\n")
    if pid in measured:
        c = measured[pid]
        out.append(f"*Coverage on the current tree*: {c['text']}\n")
    if pid in seeds:
        out.append("*Planted bugs caught*: " + "; ".join(f"{s} ({m['what_it_breaks']})" for s, m in seeds[pid]) + ".\n")
tail = f"{HERE}/design_tail.md"
if os.path.exists(tail):
    out.append(open(tail).read())
open(f"{VERIF}/DESIGN.md", "w").write("\n".join(out))
