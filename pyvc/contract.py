"""Contracts: what a caller may rely on, and what the body must deliver."""
import os
import pickle
import time

import z3

from .core import *
from .core import And, Or, Not, Implies, Iff, Ite, term_eq, simp, zb
from .exec import *
from .exec import norm, fixed_fm, Seg
from .interp import Interp
from .loops import Loops, All, Ex


class View:
    """Contents of a state, for use in contracts."""

    def __init__(self, ex, st):
        self.ex, self.st = ex, st.frozen()

    def fm(self, fam, argsorts=None, t=None):
        m = self.st.fm.get(fam)
        if m is None:
            sv, self.ex.st = self.ex.st, self.st
            try:
                m = self.ex.get_fm(fam, argsorts, t)
            finally:
                self.ex.st = sv
        return m

    def f(self, fam, *args):
        """The value of a declared field."""
        return norm(self.fm(fam).read([a.cs[0] if isinstance(a, SV) else a for a in args]))

    def e(self, fam, *args):
        """Its first (or only) component."""
        return self.fm(fam).read([a.cs[0] if isinstance(a, SV) else a for a in args]).cs[0]

    def cs(self, fam, *args):
        return self.fm(fam).read([a.cs[0] if isinstance(a, SV) else a for a in args]).cs

    def get(self, obj, field):
        return self.st.objs[obj].fields[field]

    def obj(self, obj, field, t):
        """A field of a singleton, as a symbolic value of the type."""
        v = self.st.objs[obj].fields[field]
        sv, self.ex.st = self.ex.st, self.st
        try:
            return self.ex.coerce(v, t)
        finally:
            self.ex.st = sv

    def cnt(self, l, *cs):
        """How often an element is in a list."""
        cs = [c.cs[0] if isinstance(c, SV) else c for c in cs]
        r = self.st.lists.get(l.lid)
        if r is not None and r.conc is not None:
            t = z3.IntVal(0)
            sv, self.ex.st = self.ex.st, self.st
            try:
                for x in r.conc:
                    if isinstance(x, Seg):
                        t = t + x.gl.mult(tuple(cs))
                    else:
                        y = self.ex.coerce(x, r.elem) if r.elem is not None else x
                        if len(y.cs) != len(cs):
                            continue
                        t = t + Ite(And(*[term_eq(a, b) for a, b in zip(y.cs, cs)]), z3.IntVal(1), z3.IntVal(0))
            finally:
                self.ex.st = sv
            return z3.simplify(t)
        sv, self.ex.st = self.ex.st, self.st
        try:
            c, n = self.ex.list_fms(l)
        finally:
            self.ex.st = sv
        return c.read(tuple(l.idx) + tuple(cs)).e

    def member(self, l, *cs):
        return self.cnt(l, *cs) > 0

    def has(self, d, *cs):
        sv, self.ex.st = self.ex.st, self.st
        try:
            cs = [c.cs[0] if isinstance(c, SV) else c for c in cs]
            h, g = self.ex.dict_fms(d)
            return h.read(tuple(d.idx) + tuple(cs)).e
        finally:
            self.ex.st = sv

    def val(self, d, *cs):
        sv, self.ex.st = self.ex.st, self.st
        try:
            cs = [c.cs[0] if isinstance(c, SV) else c for c in cs]
            h, g = self.ex.dict_fms(d)
            return norm(g.read(tuple(d.idx) + tuple(cs)))
        finally:
            self.ex.st = sv

    def truth(self, x):
        sv, self.ex.st = self.ex.st, self.st
        try:
            return zb(self.ex.truth(x))
        finally:
            self.ex.st = sv

    def len(self, x):
        sv, self.ex.st = self.ex.st, self.st
        try:
            n = self.ex.length(x)
            return z3.IntVal(n) if isinstance(n, int) else n.e
        finally:
            self.ex.st = sv

    @property
    def events(self):
        return self.st.events


class Ctx:
    def __init__(self, ex, L, old):
        self.ex, self.L = ex, L
        self.old = View(ex, old)
        self.new = self.old
        self.ret = None
        self.exc = None

    def __getitem__(self, k):
        return self.L[k]


class Contract:
    """One function's contract.  Subclasses give setup/requires/modifies/
    ensures; clauses are (property ids, name, goal)."""
    qual = None
    props = ()
    exc_ok = ()         # exception classes which may leave the function

    def setup(self, ex):
        """Arguments and initial state for verification: dict of arguments."""
        raise NotImplementedError

    def requires(self, c):
        return []

    def modifies(self, c):
        """fm families ("F", fam) / points ("F", fam, idx) / ("O", obj, field, type)"""
        return []

    def ensures(self, c):
        return []

    def exc_ensures(self, c):
        return []

    def end_ensures(self, c):
        return []

    def raises(self, c):
        """Exceptions a caller must expect, as (class, condition)."""
        return []

    def returns(self, c):
        return None

    def pool(self, ex, base, gl, W):
        return []

    # ---- use at a call
    def apply(self, ex, L):
        old = ex.st.clone()
        c = Ctx(ex, L, old)
        for props, name, g in self.requires(c):
            ex.require(g, ("pre", self.qual, name, props))
        rs = list(self.raises(c))
        if rs:
            k = ex.pick(len(rs) + 1)
            if k:
                cls, cond = rs[k - 1]
                ex.st.assume(cond)
                if not ex.feasible(z3.BoolVal(True)):
                    raise Infeasible()
                ex.raise_(cls)
        ep = name_mark()
        fresh_name("call")
        for m in self.modifies(c):
            self.havoc(ex, m, ep)
        c.ret = self.returns(c)
        c.new = View(ex, ex.st)
        for props, name, g in self.ensures(c):
            ex.assume_goal(g)
        return c.ret

    def havoc(self, ex, m, ep):
        if m[0] == "F":
            fm = m[3] if len(m) > 3 else None
            cur = ex.st.fm.get(m[1]) or ex.get_fm(m[1])
            if len(m) > 2 and m[2] is not None:
                idx = tuple(m[2])
                hv = [fconst(s, m[1]) for s in cur.t.sorts]
                ex.st.fm[m[1]] = cur.put(idx, hv)
            else:
                ex.st.fm[m[1]] = cur.havoc(None, name_mark())
        elif m[0] == "L":      # a list: its counts and length
            r = ex.lrec(m[1])
            if r.conc is not None:
                ex.listify(m[1], m[2] if len(m) > 2 else None)
            c, n = ex.list_fms(m[1])
            idx = tuple(m[1].idx)
            k = len(idx)
            own = (lambda a: And(*[term_eq(x, y) for x, y in zip(a[:k], idx)])) if k else None
            ex.st.fm["cnt:" + m[1].lid] = c.havoc(own, name_mark())
            ex.st.fm["len:" + m[1].lid] = n.havoc(own, name_mark())
        elif m[0] == "O":
            t = m[3]
            if is_list(t):
                lid = fresh_name("L")
                ex.st.lists[lid] = ListRec(t.elem, None, 0)
                for nm, srt, tt in (("cnt:", t.elem.sorts, INT), ("len:", (), INT)):
                    ex.st.fm[nm + lid] = FieldMap.uf(nm + lid, srt, tt).havoc(None, name_mark())
                ex.st.objs[m[1]].fields[m[2]] = ListV(lid)
            elif is_dict(t):
                did = fresh_name("D")
                ex.st.dicts[did] = DictRec(t, None, 0)
                ex.st.objs[m[1]].fields[m[2]] = DictV(did)
                ex.dict_fms(DictV(did))
                for nm in list(ex.st.fm):
                    if nm.endswith(":" + did):
                        ex.st.fm[nm] = ex.st.fm[nm].havoc(None, name_mark())
            else:
                v = ex.reg(fresh(t, m[2]))
                ex.st.objs[m[1]].fields[m[2]] = norm(v)
        elif m[0] == "G":
            ex.st.ghost[m[1]] = fresh(m[2], m[1])
        elif m[0] == "E":
            ex.st.events.append(Event("call", (self.qual,)))

    # ---- verification of the body
    def verify(self, ex):
        f = ex.prog.find(self.qual)
        if f is None:
            raise Unsupported("function %s not found" % self.qual)
        ex.root = self.qual
        ex.loop_pool = self.pool
        ex.st = State()
        L = self.setup(ex)
        c0 = Ctx(ex, L, ex.st)
        for props, name, g in self.requires(c0):
            ex.assume_goal(g)
        base = ex.st
        ex.top_base = base
        L0 = L

        def thunk():
            node = f.node
            L = dict(L0)
            self.cases(ex, L)
            params = [a.arg for a in node.args.args]
            args, kw = [], {}
            for p in params:
                if p in L:
                    kw[p] = L[p]
            rest = {k: v for k, v in L.items() if k not in params}
            if node.args.vararg is not None or rest:
                args = [L[p] for p in params if p in L] + list(L.get("*", ()))
                kw = {k: v for k, v in L.items() if k not in params and k != "*"}
            return ex.run_func(f, args, kw)
        outs = ex.explore(thunk, base)
        clauses = []
        for st, kind, v in outs:
            c = Ctx(ex, L, base)
            c.new = View(ex, st)
            c.ret = v
            if kind == "ret":
                kind = "next"
            if kind == "next":
                gs = self.ensures_body(c)
            elif kind == "exc":
                c.exc = v
                gs = self.exc_clauses(c)
            elif kind == "end":
                gs = self.end_ensures(c)
            else:
                raise Unsupported("outcome " + kind)
            ex.st = st
            for props, name, g in gs:
                clauses.append((props, name, st, g))
            for props, name, g in self.frame(ex, c, base, st):
                clauses.append((props, name, st, g))
        return outs, clauses

    def cases(self, ex, L):
        """Decisions on the arguments, made before the body runs."""

    def ensures_body(self, c):
        return list(self.ensures(c)) + list(self.ensures_extra(c))

    def ensures_extra(self, c):
        """Clauses proved of the body and not used by callers."""
        return []

    def exc_clauses(self, c):
        e = c.exc
        for cls, cond in self.raises(c):
            if c.ex.exc_matches(e, cls):
                return [(self.props, "exception %s only as allowed" % getattr(cls, "__name__", cls), cond)] + \
                    list(self.exc_ensures(c))
        return [(self.props, "no exception leaves (%s)" % (e,), z3.BoolVal(False))]

    def frame(self, ex, c, base, st):
        """Nothing changes but what the contract says."""
        out = []
        mods = list(self.modifies(c))
        whole = {m[1] for m in mods if m[0] == "F" and (len(m) < 3 or m[2] is None)}
        for m in mods:
            if m[0] == "L" and not m[1].idx:
                whole |= {"cnt:" + m[1].lid, "len:" + m[1].lid}
        for fam, m in st.fm.items():
            b = base.fm.get(fam)
            if b is None:
                if ex.is_new(fam, self.mark0(ex)):
                    continue
                if not m.ups:
                    continue
                b = FieldMap(m.name, m.argsorts, m.t, m.base, ())
            if b is m or fam in whole or fam.split(".")[0] in ("J",):
                continue
            if fam.startswith("ghost:") and ("ghost:*",) in mods:
                continue
            points = [m2[2] for m2 in mods if m2[0] == "F" and m2[1] == fam and len(m2) > 2 and m2[2] is not None]
            for m2 in mods:
                if m2[0] == "L" and m2[1].idx and fam in ("cnt:" + m2[1].lid, "len:" + m2[1].lid):
                    points.append(m2[1].idx)

            def same(*a, m=m, b=b, points=points):
                olds = And(*[simp(Ref.is_Old(x)) for x in a if x.sort() == Ref])
                ex1 = Or(*[And(*[term_eq(x, y) for x, y in zip(a, p)]) for p in points])
                return Or(Not(olds), ex1, And(*[term_eq(x, y) for x, y in zip(m.read(a).cs, b.read(a).cs)]))
            if m.argsorts:
                out.append((self.props, "frame: %s" % fam, All(m.argsorts, same)))
            else:
                out.append((self.props, "frame: %s" % fam, same()))
        ofs = {(m[1], m[2]) for m in mods if m[0] == "O"}
        for ad, r in base.objs.items():
            for fl in set(r.fields) | set(st.objs[ad].fields):
                if (ad, fl) in ofs:
                    continue
                x, y = r.fields.get(fl), st.objs[ad].fields.get(fl)
                if x is y:
                    continue
                try:
                    sv, ex.st = ex.st, st
                    g = ex.eq(x, y)
                    ex.st = sv
                except Unsupported:
                    g = z3.BoolVal(False)
                out.append((self.props, "frame: %s.%s" % (ad, fl), zb(g)))
        return out

    def mark0(self, ex):
        return 0


class Result:
    def __init__(self, qual):
        self.qual = qual
        self.status = None        # proved / failed / unsupported
        self.why = None
        self.obls = []            # (props, name, status, detail)
        self.paths = 0
        self.time = 0.0
        self.used_contracts, self.used_externs, self.inlined = set(), set(), set()
        self.loops = []


def discharge(ex, todo, jobs):
    """(ok, detail) of every obligation, in worker processes."""
    if jobs <= 1 or len(todo) < 8:
        return [check(ex, st, g) for _, _, st, g in todo], None
    # neighbours share a path, and so most of the work of instantiation
    order = sorted(range(len(todo)), key=lambda i: id(todo[i][2]))
    step = max(1, min(24, len(todo) // (jobs * 4)))
    chunks = [order[i:i + step] for i in range(0, len(order), step)]
    rd, wr = os.pipe()          # a queue of chunk numbers
    for i in range(len(chunks)):
        os.write(wr, i.to_bytes(4, "little"))
    os.close(wr)
    kids = []
    for k in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                q0, t0, by0 = ex.prover.queries, ex.prover.time, dict(ex.prover.by)
                out = []
                while True:
                    n = os.read(rd, 4)
                    if len(n) < 4:
                        break
                    for i in chunks[int.from_bytes(n, "little")]:
                        try:
                            res = check(ex, todo[i][2], todo[i][3])
                        except Unsupported as e:
                            res = (None, str(e))
                        except Exception as e:
                            if os.environ.get("VC_TRACE"):
                                import traceback
                                traceback.print_exc()
                            res = (None, "%s: %s" % (type(e).__name__, e))
                        out.append((i, res))
                by = {x: n - by0.get(x, 0) for x, n in ex.prover.by.items()}
                data = pickle.dumps((out, ex.prover.queries - q0, ex.prover.time - t0, by))
                with os.fdopen(w, "wb") as f:
                    f.write(data)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    os.close(rd)
    res = [None] * len(todo)
    for pid, r in kids:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        if not data:
            raise Unsupported("a proof worker ended without an answer")
        out, q, t, by = pickle.loads(data)
        for i, x in out:
            if x[0] is None:
                raise Unsupported(x[1])
            res[i] = x
        ex.prover.queries += q
        ex.prover.time += t
        for k, n in by.items():
            ex.prover.by[k] = ex.prover.by.get(k, 0) + n
    if any(x is None for x in res):
        raise Unsupported("a proof worker lost an obligation")
    return res, None


def verify_function(make_exec, contract, only=None, jobs=1):
    """Verify one function against its contract; only: a property id, to
    discharge the obligations serving it."""
    r = Result(contract.qual)
    t0 = time.time()
    name_reset(0)
    ex = make_exec()
    try:
        outs, clauses = contract.verify(ex)
        r.paths = len(outs)
        r.explored = time.time() - t0
        merged = {}
        todo = []
        for name, st, g in ex.obligations:
            todo.append((tuple(name[3]), "%s of %s" % (name[2], name[1]), st, g))
        todo += [(tuple(p), n, st, g) for p, n, st, g in clauses]
        if only is not None:
            todo = [t for t in todo if only in t[0]]
        res, _ = discharge(ex, todo, jobs)
        for (props, name, st, g), (ok, det) in zip(todo, res):
            o = merged.setdefault((props, name), [0, 0, None])
            o[0] += 1
            if not ok:
                o[1] += 1
                o[2] = o[2] or det
        # some path must be possible, or everything holds vacuously
        live = 0
        for st, kind, v in outs:
            if ex.prover.feasible(st.facts, z3.BoolVal(True)):
                live += 1
        r.live = live
        if live == 0:
            merged[((), "vacuity: some path is possible")] = [1, 1, "no feasible path"]
        for (props, name), (n, bad, det) in merged.items():
            r.obls.append((props, name, n, bad, det))
        r.status = "failed" if any(o[3] for o in r.obls) else "proved"
        if not r.obls:
            r.status, r.why = ("unsupported", "no obligations") if only is None else ("proved", "no obligations for it")
    except Unsupported as e:
        r.status, r.why = "unsupported", str(e)
        import traceback
        if os.environ.get("VC_TRACE"):
            traceback.print_exc()
    except RecursionError:
        r.status, r.why = "unsupported", "recursion limit"
    r.time = time.time() - t0
    r.used_contracts, r.used_externs, r.inlined = ex.used_contracts, ex.used_externs, ex.inlined
    r.loops = ex.loop_notes
    r.ex = ex
    return r


def check(ex, st, g):
    if os.environ.get("VC_SLOW"):
        t0 = time.time()
        r = check_(ex, st, g)
        if time.time() - t0 > float(os.environ["VC_SLOW"]):
            print("SLOW %.1fs %s" % (time.time() - t0, r), flush=True)
        return r
    return check_(ex, st, g)


def check_(ex, st, g):
    sv = ex.st
    ex.st = st.clone()
    try:
        for p in ex.goal_parts(g):
            # the current facts (goal_parts may add instances)
            s = ex.prover.prove(ex.st.facts, p, full=True)
            if s != "proved":
                return False, "%s: %s" % (s, str(p)[:int(os.environ.get("VC_LEN", "400"))])
        return True, None
    finally:
        ex.st = sv
