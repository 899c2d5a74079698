#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import PROPS
sys.path.insert(0, V + "/tools")
from props import P, NOT_CLAIMED

with open(V + "/properties.jsonl", "w") as f:
    for p in P + NOT_CLAIMED:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(q) + "\n")
checks = []
for p in P:
    i = p["id"]
    assert i in PROPS, i
    checks.append({
        "property": i,
        "quick_cmd": "python3 /verif/vrun.py check %s --tier quick" % i,
        "thorough_cmd": "python3 /verif/vrun.py check %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "contract-based deductive verification: verification conditions from the LLVM IR of the real code, discharged by SAT/SMT",
        "level": "other" if PROPS[i].get("bounded") == "all" else "proof",
        "level_note": p["note"] + (" Bounded: ring positions, queue orders and array sets are sampled as stated in the evidence; not counted as proved." if PROPS[i].get("bounded") == "all" else " Bounded stand-ins, counted apart: " + ", ".join(PROPS[i]["bounded"]) + "." if PROPS[i].get("bounded") else ""),
        "theorems": [d for _, d in PROPS[i]["drivers"]],
    })
assert {p["id"] for p in P} == set(PROPS), set(PROPS) ^ {p["id"] for p in P}
m = {"version": 1, "setup_cmd": "python3 /verif/vrun.py setup",
     "hooks": {"guard": "none", "enable": "no hooks are needed: contracts are kept in /verif/specs and bound to the real functions by the verifier", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_CLAIMED],
     "notes": "See DESIGN.md. Exit 2 means the check could not give an answer (tool or build error)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
