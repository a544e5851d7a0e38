"""The kinds of concrete cases of each property."""
import hashlib
import json
import random

import scenario
import pure

KINDS = {
    "C01": ["daemon"], "C02": ["daemon"], "C03": ["daemon"], "C04": ["daemon"], "C05": ["daemon"],
    "C06": ["daemon"], "C07": ["daemon"], "C08": ["daemon"], "C09": ["daemon"], "C10": ["daemon"],
    "C11": ["daemon"], "C18": ["daemon"], "C22": ["daemon"],
}
for _p, _fns in pure.CASES.items():
    KINDS.setdefault(_p, [])
    KINDS[_p] = KINDS[_p] + [f.__name__ for f in _fns]
FNS = {f.__name__: f for fns in pure.CASES.values() for f in fns}


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=repr).encode()).hexdigest()[:16]


def run(kind, prop, seed, n, scratch):
    """One case: {"bad": [[properties, message, when], ...], ...}"""
    if kind == "daemon":
        o = scenario.scenario("%s-%s" % (seed, n), prop, scratch)
        bad = [list(f) for f in o.found if prop in f[0]]
        st = {"starts": o.starts, "ended": len(o.done), "signals": o.killed_n, "reloads": o.reloads,
              "triggers": o.triggers, "shutdowns": 1 if o.shut else 0}
        res = {"kind": kind, "n": n, "bad": bad, "stats": st, "nontrivial": o.starts > 0,
               "digest": digest([[l[28:] for l in o.log if "start " not in l][:50], st]),
               "sample": {"case": "%s:%d" % (kind, n), "log": o.log[:12]}}
        if bad:
            res["log"] = o.log[-150:]
            res["config"] = {k: v for k, v in o.cfg.items() if k[0] != "_"}
        return res
    r = random.Random("%s-%s-%s-%s" % (prop, kind, seed, n))
    c = pure.Case(r, scratch)
    FNS[kind](c)
    res = {"kind": kind, "n": n, "bad": [[[prop], m, ""] for m in c.bad[:5]], "stats": c.stats,
           "nontrivial": c.nontrivial, "digest": digest(c.what), "sample": {"case": "%s:%d" % (kind, n),
                                                                           "what": str(c.what)[:600]}}
    if c.bad:
        res["what"] = str(c.what)[:20000]
    return res
