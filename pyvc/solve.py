"""Discharging of obligations: z3 first, cvc5 as a second back end."""
import os
import subprocess
import tempfile
import time

import z3

CVC5 = "/usr/bin/cvc5"


class Prover:
    def __init__(self, feas_ms=150, proof_ms=6000):
        self.feas_ms, self.proof_ms = feas_ms, proof_ms
        self.queries = 0
        self.time = 0.0
        self.by = {}
        self.cache = {}
        self.keep = []
        self.inc = {}

    def _key(self, facts, g):
        return (tuple(f.get_id() for f in facts), g.get_id())

    # incremental solvers following the current path
    def _solver(self, facts, kind="feas"):
        inc = self.inc.get(kind)
        if inc is None:
            s = z3.Solver()
            s.set("timeout", self.feas_ms if kind == "feas" else 1500)
            inc = self.inc[kind] = (s, [])
        s, old = inc
        n = 0
        m = min(len(old), len(facts))
        while n < m and old[n].get_id() == facts[n].get_id():
            n += 1
        if n < len(old):
            s.pop(len(old) - n)
            del old[n:]
        for f in facts[n:]:
            s.push()
            s.add(f)
            old.append(f)
        return s

    def feasible(self, facts, c):
        if z3.is_false(c):
            return False
        k = self._key(facts, c)
        r = self.cache.get(k)
        if r is None:
            t0 = time.time()
            s = self._solver(facts)
            s.push()
            s.add(c)
            r = s.check() != z3.unsat
            s.pop()
            self.cache[k] = r
            self.keep.append((tuple(facts), c))
            self.queries += 1
            self.time += time.time() - t0
        return r

    def prove(self, facts, goal, ms=None, full=False):
        """'proved', 'failed' (a counter-model exists) or 'unknown'."""
        if goal is True or (not isinstance(goal, bool) and z3.is_true(goal)):
            return "proved"
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        k = ("p", full) + self._key(facts, goal)
        if k in self.cache:
            return self.cache[k]
        self.keep.append((tuple(facts), goal))
        t0 = time.time()
        self.queries += 1
        ng = z3.Not(goal)
        # relevant facts first, then all
        r = "unknown"
        self.model = None
        s = self._solver(facts, "proof")
        s.push()
        s.add(ng)
        c = s.check()
        if c == z3.sat:
            self.model = s.model()
        s.pop()
        if c == z3.unknown:
            s = z3.Solver()
            s.set("timeout", ms or self.proof_ms)
            s.add(*facts)
            s.add(ng)
            c = s.check()
            if c == z3.sat:
                self.model = s.model()
        back = "z3-" + z3.get_version_string()
        if c == z3.unsat:
            r = "proved"
        elif c == z3.sat:
            r = "failed"
        elif full:
            back = "cvc5"
            r = self.cvc5(s)
        if r == "proved":
            self.by[back] = self.by.get(back, 0) + 1
        self.time += time.time() - t0
        self.cache[k] = r
        return r

    def cvc5(self, s):
        if not os.path.exists(CVC5):
            return "unknown"
        text = "(set-logic ALL)\n" + s.to_smt2()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(text)
        try:
            p = subprocess.run([CVC5, "--strings-exp", "--tlimit=10000", f.name], capture_output=True, text=True,
                               timeout=15)
            out = p.stdout.strip().splitlines()
            return "proved" if out and out[0] == "unsat" else "unknown"
        except Exception:
            return "unknown"
        finally:
            os.unlink(f.name)
