import os, sys, time
from .frontend import Program
from .contract import *
from .loops import Loops
from .externs import X
from . import rx
from .solve import Prover


def make(prog, schema, contracts, externs, opts):
    def mk():
        e = dict(X)
        e.update(externs)
        return Loops(prog, schema, contracts, e, Prover(), dict(opts))
    return mk


def report(r, verbose=True):
    print("== %s: %s %s  paths=%d time=%.1fs" % (r.qual, r.status, r.why or "", r.paths, r.time))
    for props, name, n, bad, det in r.obls:
        if bad or verbose:
            print("   %s %-60s %s %s" % ("FAIL" if bad else "ok  ", name[:60], n, (det or "")[:int(os.environ.get("VC_LEN", "600"))]))
