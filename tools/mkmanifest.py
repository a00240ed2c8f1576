"""Writes MANIFEST.json (run by hand)."""
import json
import os
import sys

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
PROVED = json.load(open(os.path.join(HERE, "tools", "levels.json"))) if os.path.exists(os.path.join(HERE, "tools", "levels.json")) else {}
checks = []
for p in props:
    i = p["id"]
    note = PROVED.get(i)
    checks.append(dict(
        property=i,
        quick_cmd=f"VERIF_TIER=quick python3 check.py {i}",
        thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
        evidence_file=f"evidence/{i}.json",
        technique="contract-based deductive verification of the real source (symbolic execution VC generation, z3)" + (" with bounded contract evaluation on real torch beside it" if note else ": contracts evaluated on real torch, bounded"),
        level="proof" if note else "exploration",
        level_note=note or "Bounded: the property's contracts are evaluated on the real code over a fixed grid and seeded random cases; nothing is counted as proved.",
    ))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=[],
         notes="No hooks in /repo. The checks read /repo's working tree directly; nothing is built. known_findings.json lists recorded defects and the fix: commits.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
