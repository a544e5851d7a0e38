"""Concrete checks of a property on the real code.

  run.py ID [--seed N] [--time SECONDS] [--procs N] [--out FILE] [--repo DIR]
  run.py ID --case KIND:NUMBER    runs one case again and prints what happened

Cases are numbered; a case depends on the property, the seed and its number
only. They are run by worker processes under a simulated clock.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python"


def scratch_dir():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and os.statvfs("/dev/shm").f_bavail * \
        os.statvfs("/dev/shm").f_frsize > 500 << 20 else None
    return tempfile.mkdtemp(prefix="dsari-check-", dir=base)


def build_clock(d):
    so = os.path.join(d, "clock.so")
    subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", so, os.path.join(HERE, "clock.c")], check=True)
    return so


def worker(args):
    sys.path.insert(0, HERE)
    sys.path.insert(0, args.repo)
    scratch = args.worker
    os.environ["DSARI_HOME"] = os.path.join(scratch, "home")
    os.environ["HOME"] = os.path.join(scratch, "userhome")
    os.makedirs(os.path.join(scratch, "home", "etc"), exist_ok=True)
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter("ignore")
    import sim
    sim.patch()
    import cases
    t0 = sim.real_now()
    kinds = cases.KINDS[args.property]
    if args.case:
        kind, n = args.case.rsplit(":", 1)
        res = cases.run(kind, args.property, args.seed, int(n), scratch)
        print(json.dumps(res, indent=1, default=str))
        return 1 if res["bad"] else 0
    n = args.index
    out = open(args.out, "w")
    while sim.real_now() - t0 < args.time:
        kind = kinds[(n // args.procs) % len(kinds)] if len(kinds) > 1 else kinds[0]
        try:
            res = cases.run(kind, args.property, args.seed, n, scratch)
        except Exception as e:
            import traceback
            res = {"kind": kind, "n": n, "error": traceback.format_exc()[-1500:], "bad": []}
        out.write(json.dumps(res, default=str) + "\n")
        out.flush()
        if res["bad"]:
            break
        n += args.procs
        if args.max and n >= args.max:
            break
    out.close()
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--time", type=float, default=40)
    ap.add_argument("--procs", type=int, default=8)
    ap.add_argument("--max", type=int, default=0)
    ap.add_argument("--out")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--worker")
    ap.add_argument("--index", type=int, default=0)
    ap.add_argument("--case")
    args = ap.parse_args()
    if args.worker:
        return worker(args)
    d = scratch_dir()
    try:
        so = build_clock(d)
        env = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LD_PRELOAD": so, "TZ": "UTC", "LANG": "C.UTF-8",
               "PYTHONHASHSEED": "0", "MARKER_OF_THE_DAEMON": "must not be passed on"}
        base = [PYTHON, os.path.abspath(__file__), args.property, "--seed", str(args.seed), "--repo", args.repo,
                "--procs", str(args.procs), "--time", str(args.time), "--max", str(args.max)]
        if args.case:
            w = os.path.join(d, "w")
            os.mkdir(w)
            return subprocess.run(base + ["--worker", w, "--case", args.case], env=env).returncode
        ps = []
        for i in range(args.procs):
            w = os.path.join(d, "w%d" % i)
            os.mkdir(w)
            o = os.path.join(d, "out%d" % i)
            ps.append((subprocess.Popen(base + ["--worker", w, "--index", str(i), "--out", o], env=env,
                                        stdout=subprocess.DEVNULL, stderr=open(os.path.join(d, "err%d" % i), "w"),
                                        start_new_session=True), o))
        deadline = time.time() + args.time + 120
        first_bad = None
        while any(p.poll() is None for p, _ in ps) and time.time() < deadline:
            time.sleep(0.2)
            if first_bad is None and any(p.poll() is not None and os.path.exists(o) and '"bad": [[' in tail(o)
                                         for p, o in ps):
                first_bad = time.time()
                deadline = min(deadline, time.time() + 5)
        for p, _ in ps:
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            p.wait()
        rs = []
        for _, o in ps:
            if os.path.exists(o):
                for line in open(o):
                    try:
                        rs.append(json.loads(line))
                    except ValueError:
                        pass
        rs.sort(key=lambda r: r["n"])
        bad = [r for r in rs if r["bad"]]
        err = [r for r in rs if r.get("error")]
        desc = {}
        for r in rs:
            if r.get("nontrivial"):
                desc[r["digest"]] = r
        stats = {}
        for r in rs:
            for k, v in r.get("stats", {}).items():
                stats[k] = stats.get(k, 0) + v
        errs = "".join(open(os.path.join(d, "err%d" % i)).read()[-500:] for i in range(args.procs))
        res = {"property": args.property, "seed": args.seed, "cases": len(rs), "distinct": len(desc),
               "by_kind": {k: sum(1 for r in rs if r["kind"] == k) for k in sorted({r["kind"] for r in rs})},
               "samples": [r.get("sample") for r in list(desc.values())[:3]], "stats": stats,
               "errors": len(err), "error": (err[0]["error"] if err else None) or (errs if not rs else None),
               "bad": bad[:3]}
        s = json.dumps(res, indent=1, default=str)
        if args.out:
            with open(args.out, "w") as f:
                f.write(s)
        else:
            print(s)
        return 1 if bad else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tail(o):
    with open(o, "rb") as f:
        f.seek(0, 2)
        n = f.tell()
        f.seek(max(0, n - 200000))
        return f.read().decode("utf-8", "replace")


if __name__ == "__main__":
    sys.exit(main())
