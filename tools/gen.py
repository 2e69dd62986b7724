#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from props.py and the checks that exist."""
import json
import os

from props import NA, PROPS

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL_NOTE = ("Bounded: within the bounds ({}) the solver decides the claims for every value of the symbolic inputs, random draws and moves; "
              "nothing is claimed outside. Trusted: the proxy engine and its oracles, z3, networkx/numpy primitives, "
              "real arithmetic standing for floats.")
TECH = "symbolic execution of the real Python code with SMT-backed proxies (z3), counterexamples replayed natively"


def main():
    have = [p for p in PROPS if os.path.exists(f"{V}/checks/{p['id'].lower()}.py")]
    with open(f"{V}/properties.jsonl", "w") as f:
        for p in have + NA:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": m, "where": p["files"][0]} for m in p["mech"]],
                            "hook_needed": None},
            }) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "mkdir -p evidence",
        "checks": [{
            "property": p["id"], "quick_cmd": f"./run.sh {p['id']} quick", "thorough_cmd": f"./run.sh {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"] or TECH, "level": "model_checking", "level_note": LEVEL_NOTE.format(p["note"]),
        } for p in have],
        "not_applicable": [{"property": p["id"], "reason": p["note"]} for p in NA],
        "notes": "No hooks in /repo: the checks import the working tree and redirect `random` and a few `math` functions. "
                 "known_findings.json lists recorded and fixed defects. Generated by tools/gen.py.",
    }
    json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
    open(f"{V}/MANIFEST.json", "a").write("\n")
    for p in have + NA:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        n = p["statement"].count(". ") + 1
        assert n <= 3, (p["id"], n)
    print(len(have), "claimed", len(NA), "not applicable")


main()
