"""Writes MANIFEST.json from the contracts' tags."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from contracts import registry

PROVED = ("Contracts on the functions named in the evidence are proved for all inputs, states and iterations from the"
          " current source: %s. Callees outside are used by their (listed) contracts or models of library calls."
          " Assumed: the obligation generator pyvc, z3 and cvc5, CPython's semantics, mathematical numbers and times."
          " What is not under contract is exercised by bounded concrete cases, which are not counted as proved.")
ONLY = ("No function this depends on is under contract yet: bounded concrete cases against the real code only.")

by = {}
for u in registry.units():
    for p in u.props:
        by.setdefault(p, []).append(u.qual.replace("dsari.", "", 1))
checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    pid = json.loads(line)["id"]
    us = by.get(pid)
    checks.append({
        "property": pid,
        "quick_cmd": "python3-vt check.py %s" % pid,
        "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py %s" % pid,
        "technique": "deductive verification of contracts on the real Python source (pyvc: symbolic execution to SMT,"
                     " z3/cvc5)" if us else "bounded concrete cases (stand-in for contracts)",
        "level": "proof" if us else "exploration",
        "level_note": PROVED % ", ".join(us) if us else ONLY,
    })
json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import z3' && /opt/venv/bin/python -c 'import croniter'",
           "checks": checks, "not_applicable": []}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
