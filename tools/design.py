#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md (cost table, findings, planted bugs) from design.in.md."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(f"{V}/tools/design.in.md").read()
rows = ["## Cost of the quick tier (8 cores)", "", "| | cases | paths | queries | solver s | wall s | exhaustive |", "|---|---|---|---|---|---|---|"]
for f in sorted(glob.glob(f"{V}/evidence/C*.json")):
    d = json.load(open(f))
    c = d["coverage"]
    if d["tier"] != "quick":
        continue
    rows.append(f"| {d['property']} | {len(c['cases'])} | {c['states']} | {c['solver_queries']} | {c['solver_seconds']:.0f} | {d['wall_s']:.0f} | {c['exhaustive']} |")
known = json.load(open(f"{V}/known_findings.json"))
fixed = "\n".join(f"* {k['property']} `{k['commit']}` {k['what'].split(' ', 3)[3]}" for k in known if k["status"] == "fixed")
seeded = []
for f in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    m = json.load(open(f))
    seeded.append(f"| {os.path.basename(os.path.dirname(f))}: {m['what_it_breaks']} | {m['property']} | {m.get('caught_by', m['property'] + ' quick')} |")
s = s.replace("COST_TABLE", "\n".join(rows)).replace("FIXED_LIST", fixed).replace("SEEDED_TABLE", "\n".join(seeded))
open(f"{V}/DESIGN.md", "w").write(s)
