"""All contracts: what is verified, and what callers may rely on."""
from pyvc.contract import Contract
from pyvc.loops import Loops
from pyvc.externs import X
from pyvc.solve import Prover

from . import basic, child, cron, sched, triggers

MODULES = [basic, cron, sched, child, triggers]


def units():
    return [u for m in MODULES for u in getattr(m, "UNITS", [])]


def calls():
    """The contract of each function as its callers see it."""
    out = {}
    for m in MODULES:
        for u in getattr(m, "UNITS", []) + getattr(m, "CALLS", []):
            out.setdefault(u.qual, u())
    return out


def schema():
    out = {}
    for m in MODULES:
        out.update(getattr(m, "SCHEMA", {}))
    return out


def maker(prog, unit):
    """What makes an executor for the verification of a unit."""
    def mk():
        e = dict(X)
        for m in MODULES:
            e.update(getattr(m, "EXTERNS", {}))
        e.update(getattr(unit, "externs", {}))
        cs = {q: c for q, c in calls().items() if q != unit.qual and q not in getattr(unit, "inline", ())}
        cs.update({c.qual: c() for c in getattr(unit, "call_contracts", ())})
        return Loops(prog, schema(), cs, e, Prover(), dict(getattr(unit, "opts", {})))
    return mk
