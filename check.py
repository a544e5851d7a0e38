"""Decides one property on the code in /repo.

  check.py ID [--repo DIR] [--out DIR] [--proofs-only | --cases-only]

1. Every function under contract that the property depends on is verified
   from its current source: all obligations tagged with the property.
2. Concrete cases of the property run on the real code. They give the failing
   input of a failed obligation, and are the (bounded) stand-in for what no
   contract reaches or what the verifier could not decide.
"""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PY = "/opt/veriftools/pyvenv/bin/python"

TRUSTED = [
    "pyvc: the generator of obligations from Python source (symbolic execution of the function's AST, one call at a"
    " time against the contracts of its callees)",
    "z3 and cvc5",
    "CPython semantics of the statements used; integers mathematical, times and durations real numbers",
    "logging, formatting of log messages and reading of attributes have no other effect",
]


def units_of(pid):
    from contracts import registry
    return [(u.qual, u.__name__, getattr(u, "limit", None)) for u in registry.units() if pid in u.props]


def known():
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("KNOWN-FINDING:"):
                out.append(line.strip())
    return out


def run_units(us, pid, repo, limit, total, tmp):
    """Verify the units, a few at a time."""
    todo = list(us)
    running, res = [], {}
    t0 = time.time()
    while todo or running:
        while todo and len(running) < 4:
            qual, name, lim = todo.pop(0)
            out = os.path.join(tmp, name + ".json")
            p = subprocess.Popen([PY, os.path.join(HERE, "unit.py"), name, "--only", pid, "--jobs", "6", "--out", out,
                                  "--repo", repo], stdout=subprocess.DEVNULL,
                                 stderr=open(os.path.join(tmp, name + ".err"), "w"), start_new_session=True)
            running.append((p, qual, name, out, time.time() + (lim or limit)))
        time.sleep(0.1)
        for x in list(running):
            p, qual, name, out, dl = x
            if p.poll() is None and time.time() < min(dl, t0 + total):
                continue
            late = p.poll() is None
            if late:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
            running.remove(x)
            try:
                res[name] = json.load(open(out))
            except Exception:
                why = "time limit" if late else "verifier ended with %s: %s" % (
                    p.returncode, open(os.path.join(tmp, name + ".err")).read()[-400:])
                res[name] = {"qual": qual, "unit": name, "status": "unsupported", "why": why, "obls": [], "time": None,
                             "solver": {"queries": 0, "seconds": 0, "by": {}}, "contracts_used": [],
                             "contracts_assumed": [], "externs": [], "inlined": [], "paths": 0, "loops": []}
    return [res[n] for _, n, _ in us]


def harness(pid, seed, secs, repo, tmp, procs=8):
    out = os.path.join(tmp, "cases.json")
    p = subprocess.run([PY, os.path.join(HERE, "harness", "run.py"), pid, "--seed", str(seed), "--time", str(secs),
                        "--procs", str(procs), "--out", out, "--repo", repo], capture_output=True, text=True)
    try:
        return json.load(open(out))
    except Exception:
        return {"cases": 0, "distinct": 0, "bad": [], "errors": 1, "error": p.stderr[-1000:], "samples": [],
                "by_kind": {}, "stats": {}}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--out", default=os.path.join(HERE, "evidence"))
    ap.add_argument("--proofs-only", action="store_true")
    ap.add_argument("--cases-only", action="store_true")
    args = ap.parse_args()
    pid = args.property
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    thorough = tier == "thorough"
    t0 = time.time()
    os.makedirs(args.out, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="dsari-verify-")
    try:
        return decide(args, pid, seed, tier, thorough, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(args, pid, seed, tier, thorough, t0, tmp):
    us = [] if args.cases_only else units_of(pid)
    rs = run_units(us, pid, args.repo, 1500 if thorough else 330, 5000 if thorough else 520, tmp)
    n_obl = sum(o["obligations"] for r in rs for o in r["obls"])
    n_bad = sum(o["undischarged"] for r in rs for o in r["obls"])
    failed, undecided = [], []
    for r in rs:
        if r["status"] == "unsupported":
            undecided.append("%s: %s" % (r["qual"], r["why"]))
        for o in r["obls"]:
            if not o["undischarged"]:
                continue
            d = o["detail"] or ""
            if d.startswith("unknown") or d.startswith("timeout"):
                undecided.append("%s: %s: %s" % (r["qual"], o["name"], d[:200]))
            else:
                failed.append((r["qual"], o["name"], d))
    # concrete cases
    h = None
    if not args.proofs_only:
        left = 860 - (time.time() - t0)
        secs = 900 if thorough else min(45, max(20, left - 160))
        if failed and not thorough:
            secs = min(120, max(40, left - 160))
        h = harness(pid, seed, secs, args.repo, tmp)
    findings = known()
    bad = (h or {}).get("bad") or []
    replay = os.path.join(args.out, pid + ".replay.json")
    if os.path.exists(replay):
        os.remove(replay)
    violation = bool(bad or failed)
    for f in findings:
        if "property=%s " % pid in f:
            print(f)
    if violation:
        with open(replay, "w") as f:
            json.dump({
                "property": pid, "seed": seed,
                "failed_obligations": [{"function": q, "obligation": n, "verifier_output": d} for q, n, d in failed],
                "failing_case": bad[0] if bad else None,
                "replay_cmd": ("python3 /verif/harness/run.py %s --seed %d --case %s:%d" % (
                    pid, seed, bad[0]["kind"], bad[0]["n"])) if bad else
                "python3-vt /verif/unit.py %s --only %s" % (failed[0][0], pid),
            }, f, indent=1, default=str)
    level = "proof" if n_obl and all(r["status"] != "unsupported" for r in rs) else "exploration"
    trusted = list(TRUSTED)
    if rs:
        trusted += ["model of %s" % e for e in sorted({e for r in rs for e in r["externs"]})]
        trusted += ["assumed contract of %s" % e for e in sorted({e for r in rs for e in r["contracts_assumed"]})]
    cov = {
        "explanation": "Functions under contract are verified from their current source; the cases run the real code"
                       " (bounded, never counted as proved).",
        "functions_under_contract": [
            {"function": r["qual"], "status": r["status"], "why": r["why"], "paths": r["paths"],
             "obligations": sum(o["obligations"] for o in r["obls"]),
             "undischarged": sum(o["undischarged"] for o in r["obls"]), "seconds": r["time"],
             "clauses": [o["name"] for o in r["obls"]], "callee_contracts": r["contracts_used"],
             "inlined": r["inlined"], "solver": r["solver"]} for r in rs],
        "undecided": undecided,
    }
    if level == "proof":
        cov.update({
            "obligations": n_obl, "discharged": n_obl - n_bad,
            "checker_cmd": "python3-vt /verif/check.py %s --proofs-only" % pid, "trusted_base": trusted,
            "solver_seconds": round(sum(r["solver"]["seconds"] for r in rs), 1),
            "solver_queries": sum(r["solver"]["queries"] for r in rs),
            "back_ends": {k: sum(r["solver"]["by"].get(k, 0) for r in rs) for k in
                          sorted({k for r in rs for k in r["solver"]["by"]})},
        })
    if h is not None:
        b = {"cases": h["cases"], "distinct_nontrivial_cases": h["distinct"], "by_kind": h["by_kind"],
             "counts": h["stats"], "harness_errors": h["errors"]}
        if level == "proof":
            cov["bounded_cases"] = b
            cov["bounded_samples"] = h["samples"][:2]
        else:
            cov.update({"evaluations": h["cases"], "distinct_nontrivial": h["distinct"],
                        "rule": "cases generated from the seed; one counts as non-trivial if something observable "
                                "happened in it, and as distinct by a digest of what it did",
                        "samples": h["samples"][:3] or ["none"], "bounded_cases": b})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": trusted + ["undecided by the verifier, covered by cases only: %s" % u for u in undecided],
          "wall_s": round(time.time() - t0, 1), "violations": len(bad) + len(failed)}
    p = os.path.join(args.out, pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.rename(p + ".tmp", p)

    for r in rs:
        print("%-11s %-50s %4d obligations, %d open, %s s %s" % (
            r["status"], r["qual"], sum(o["obligations"] for o in r["obls"]),
            sum(o["undischarged"] for o in r["obls"]), r["time"], (r["why"] or "")[:200]))
    if h is not None:
        print("cases       %d run, %d distinct; %s" % (h["cases"], h["distinct"], h["stats"]))
        if h["errors"]:
            print("case errors %d: %s" % (h["errors"], (h["error"] or "")[-800:]))
    for u in undecided:
        print("undecided   " + u[:300])
    if violation:
        for q, n, d in failed[:10]:
            print("FAILED      %s: %s: %s" % (q, n, d[:300]))
        for b in bad[:2]:
            print("FAILING CASE %s:%d %s" % (b["kind"], b["n"], "; ".join(str(m[1])[:500] for m in b["bad"][:3])))
        print("VIOLATION property=%s replay=%s%s" % (pid, os.path.relpath(replay, HERE) if replay.startswith(HERE)
                                                    else replay, "" if bad else " no-failing-input-found"))
        return 1
    ran = h is not None and h["cases"] > h["errors"]
    if not ran and (undecided or not n_obl):
        print("nothing decided")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
