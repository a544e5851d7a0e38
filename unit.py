"""Verifies one function against its contract.

  unit.py QUALNAME --only PROPERTY --jobs N --out FILE [--repo DIR]
"""
import argparse
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

ap = argparse.ArgumentParser()
ap.add_argument("qual")
ap.add_argument("--only")
ap.add_argument("--jobs", type=int, default=8)
ap.add_argument("--out")
ap.add_argument("--repo", default="/repo")
args = ap.parse_args()

from pyvc.run import *
from contracts import registry

prog = Program(args.repo)
u = [u for u in registry.units() if u.qual == args.qual or u.__name__ == args.qual][0]
r = verify_function(registry.maker(prog, u), u(), jobs=args.jobs, only=args.only)
units = {x.qual for x in registry.units()}
verdicts = []
for props, name, n, bad, det in r.obls:
    verdicts.append({"name": name, "props": list(props), "obligations": n, "undischarged": bad, "detail": det})
if not args.out:
    report(r)
    sys.exit(0)
res = {
    "qual": r.qual, "unit": u.__name__, "status": r.status, "why": r.why, "paths": r.paths, "live": getattr(r, "live", None),
    "time": round(r.time, 2), "obls": verdicts,
    "solver": {"queries": r.ex.prover.queries, "seconds": round(r.ex.prover.time, 2), "by": r.ex.prover.by},
    "contracts_used": sorted(r.used_contracts), "contracts_assumed": sorted(set(r.used_contracts) - units),
    "externs": sorted(str(x) for x in r.used_externs), "inlined": sorted(r.inlined),
    "loops": [str(x)[:300] for x in r.loops],
}
with open(args.out + ".tmp", "w") as f:
    json.dump(res, f, indent=1, default=str)
os.rename(args.out + ".tmp", args.out)
