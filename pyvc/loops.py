"""Loops over collections of any size: element-wise summaries, and invariants
found among candidates by checking that they are inductive."""
import z3

from .core import *
from .core import And, Or, Not, Implies, Iff, Ite, term_eq, simp, zb, known_by
from .exec import *
from .exec import norm, GenL, Seg, simp_e
from .interp import Interp, Functionalise


def trivial(g):
    """Certainly true, without any facts."""
    if g is None or g is True:
        return True
    if isinstance(g, (list, tuple)):
        return all(trivial(x) for x in g)
    if isinstance(g, (All, Ex, bool)):
        return False
    return z3.is_true(g) or z3.is_true(z3.simplify(g))


class All:
    """A goal or fact for all values of the sorts."""

    def __init__(self, sorts, fn, name=""):
        self.cls = tuple(s if isinstance(s, str) else None for s in sorts)
        self.sorts = tuple(Ref if isinstance(s, str) else s for s in sorts)
        self.fn, self.name = fn, name


class Ex:
    """A goal or fact for some values of the sorts; wit proposes terms."""

    def __init__(self, sorts, fn, wit=None):
        self.cls = tuple(s if isinstance(s, str) else None for s in sorts)
        self.sorts = tuple(Ref if isinstance(s, str) else s for s in sorts)
        self.fn, self.wit = fn, wit


class Hidden(GenL):
    def __init__(self):
        def no(*a):
            raise Unsupported("list read in the loop which fills it")
        GenL.__init__(self, (), no, no)
        self.ident = None


class Loops(Interp):
    # ================================================================ goals
    def assume_goal(self, g, tag="a"):
        if g is None or g is True:
            return
        if isinstance(g, (list, tuple)):
            for x in g:
                self.assume_goal(x, tag)
        elif isinstance(g, All):
            self.st.assume_all(g.sorts, lambda *a: self.flat_assume(g.fn(*a)), g.name, g.cls)
        elif isinstance(g, Ex):
            ws = [fconst(s, "sk") for s in g.sorts]
            for w, cl in zip(ws, g.cls):
                self.st.add_term(w, cl)
            self.assume_goal(g.fn(*ws), tag)
        else:
            self.st.assume(g, tag)

    def flat_assume(self, g):
        """Only plain formulas below a quantifier."""
        if isinstance(g, (list, tuple)):
            return And(*[self.flat_assume(x) for x in g])
        if isinstance(g, (All, Ex)):
            raise Unsupported("nested quantifier in an assumption")
        return g

    def goal_parts(self, g):
        """The quantifier-free proof goals of g, with skolem constants in the
        current state's term pool."""
        if g is None or g is True:
            return []
        if isinstance(g, (list, tuple)):
            out = []
            for x in g:
                out += self.goal_parts(x)
            return out
        if isinstance(g, All):
            ws = [fconst(s, "all") for s in g.sorts]
            body = g.fn(*ws)
            if trivial(body):
                return []
            for w, cl in zip(ws, g.cls):
                self.st.add_term(w, cl)
                for pc in {p for c, p in self.sites.values() if cl is not None and c == cl and p is not None}:
                    self.st.add_term(Ref.par(w), pc)
            return self.goal_parts(body)
        if isinstance(g, Ex):
            import itertools
            pools = [[x for x in self.st.terms.get(str(s), []) if self.st.fits(x, cl)] for s, cl in zip(g.sorts, g.cls)]
            if g.wit is not None:
                cands = [tuple(w) for w in g.wit]
            else:
                cands = list(itertools.product(*pools))[:60]
            return [Or(*[And(*self.goal_parts(g.fn(*c))) for c in cands])]
        return [g]

    def prove_goal(self, g, st=None, ms=None):
        """True if g is proved in the state."""
        sv = self.st
        self.st = (st or sv).clone()
        try:
            for p in self.goal_parts(g):
                if self.prover.prove(self.st.facts, p, ms) != "proved":
                    return False
            return True
        finally:
            self.st = sv

    # ================================================================ differences
    def changed(self, a, b, mark):
        """Locations of state a which have another content in b."""
        out = {}
        for k, m in b.fm.items():
            if self.is_new(k, mark):
                continue
            if k not in a.fm:
                if m.ups:
                    a.fm[k] = FieldMap(m.name, m.argsorts, m.t, m.base, (), m.havoced)
                    a.fm[k].epoch = m.epoch
                else:
                    a.fm[k] = m
            if a.fm[k] is not m:
                out[("fm", k)] = True
        for fid, L in a.locals.items():
            M = b.locals.get(fid, {})
            for nm in set(L) | set(M):
                if L.get(nm, Loops) is not M.get(nm, Loops):
                    out[("local", fid, nm)] = True
        for ad, r in a.objs.items():
            for f in set(r.fields) | set(b.objs[ad].fields):
                if r.fields.get(f, Loops) is not b.objs[ad].fields.get(f, Loops):
                    out[("field", ad, f)] = True
        for l, r in a.lists.items():
            q = b.lists[l]
            if r.conc is not None and (q.conc is None or len(q.conc) != len(r.conc) or
                                       any(x is not y for x, y in zip(q.conc, r.conc))):
                out[("list", l)] = True
        for d, r in a.dicts.items():
            q = b.dicts[d]
            if r.conc is not None and (q.conc is None or list(q.conc.items()) != list(r.conc.items())):
                out[("dict", d)] = True
            elif r.epoch != q.epoch:
                out[("dictepoch", d)] = True
        if len(b.events) != len(a.events):
            out[("events",)] = True
        for k in set(a.ghost) | set(b.ghost):
            if k != "cur_exc" and a.ghost.get(k) is not b.ghost.get(k):
                out[("ghost", k)] = True
        return out

    def fam_cls(self, st, fam, m):
        """Classes of the arguments of a list's counts."""
        n = len(m.argsorts)
        out = [None] * n
        lid = fam.partition(":")[2]
        r = st.lists.get(lid)
        if fam.startswith("cnt:") and r is not None and r.elem is not None:
            k = len(r.elem.sorts)
            out[n - k:] = t_classes(r.elem)
        if lid.startswith("val:"):
            d = st.dicts.get(lid[4:])
            if d is not None and d.t is not None:
                out[:len(d.t.key.sorts)] = t_classes(d.t.key)
        elif r is not None and "." in lid and out[0] is None and m.argsorts and m.argsorts[0] == Ref:
            out[0] = lid.split(".")[0]
        return tuple(out)

    def is_new(self, name, mark):
        i = name.rfind("!")
        if i < 0:
            return False
        s = name[i + 1:].rstrip("~")
        return s.isdigit() and int(s) > mark

    def enc(self, xs0):
        """The loop element as parent of what the iteration allocates."""
        if len(xs0) != 1:
            return None
        x = xs0[0]
        if x.sort() == Ref:
            r = x
        elif x.sort() == S:
            r = Ref.KeyS(x)
        elif x.sort() == I:
            r = Ref.KeyI(x)
        elif x.sort() == J:
            return None
        return r if self.loop_par is None else Ref.Pair(self.loop_par, r)

    def pattern(self, idx, xs0):
        """If idx determines xs0: (guard(args), inverse(args)), else None."""
        found = [None] * len(xs0)
        guards = []
        for i, t in enumerate(idx):
            hit = False
            for j, x in enumerate(xs0):
                if z3.eq(t, x) and found[j] is None:
                    found[j] = lambda a, i=i: a[i]
                    hit = True
            if hit:
                continue
            r = self.unalloc(t, xs0)
            if r is not None and found[0] is None:
                g, inv = r
                found[0] = lambda a, i=i, inv=inv: inv(a[i])
                guards.append(lambda a, i=i, g=g: g(a[i]))
                continue
            guards.append(("eq", i, t))
        if any(f is None for f in found):
            return None

        def inverse(args):
            return tuple(f(args) for f in found)
        return guards, inverse

    def unalloc(self, t, xs0):
        """t == Alloc(site, enc(xs0)): its recogniser and inverse."""
        if len(xs0) != 1 or t.sort() != Ref or not z3.is_app(t) or t.decl().name() != "Alloc":
            return None
        site, par = t.arg(0), t.arg(1)
        e = self.enc(xs0)
        if e is None or not z3.eq(par, e):
            return None
        x = xs0[0]

        def rec(a):
            p = Ref.par(a)
            gs = [Ref.is_Alloc(a), Ref.site(a) == site]
            if self.loop_par is not None:
                gs += [Ref.is_Pair(p), Ref.fst(p) == self.loop_par]
                p = Ref.snd(p)
            if x.sort() == S:
                gs.append(Ref.is_KeyS(p))
            elif x.sort() == I:
                gs.append(Ref.is_KeyI(p))
            return simp(z3.And(*gs))
        lp = self.loop_par

        def inv(a):
            p = Ref.par(a)
            if lp is not None:
                p = Ref.snd(p)
            if x.sort() == S:
                return simp_e(Ref.ks(p))
            if x.sort() == I:
                return simp_e(Ref.ki(p))
            return simp_e(p)
        return rec, inv

    def pat_guard(self, pat, args, fz=None):
        """The recogniser of a pattern, for the arguments."""
        guards, inverse = pat
        out = []
        xs = inverse(args)
        for g in guards:
            if isinstance(g, tuple):
                t = g[2] if fz is None else fz.expr(g[2], xs)
                out.append(term_eq(args[g[1]], t))
            else:
                out.append(g(args))
        return And(*out)

    def diff_ups(self, a, b):
        """The updates which made field map b of a, or None."""
        if b.base is not a.base or len(b.ups) < len(a.ups):
            return None
        for p, q in zip(a.ups, b.ups):
            if p is not q:
                return None
        return b.ups[len(a.ups):]

    # ================================================================ for
    def loop_for(self, n, gl, coll):
        base0 = self.st
        key = ("for", self.ctx, tuple(d for d, _ in self.script[:self.pos]), name_mark(), self.in_quiet,
               len(base0.facts), id(n))
        c = self.loopcache.get(key)
        if c is None:
            octx = self.ctx
            try:
                base, summ, cand, abrupt = self.analyse_for(n, gl, coll, key)
            finally:
                self.ctx = octx
                self.st = base0
            c = (base, summ, cand, abrupt, name_mark())
            self.loopcache[key] = c
        base, summ, cand, abrupt, hi = c
        name_reset(hi)
        k = self.pick(len(abrupt) + 1)
        if k == 0:
            st = base.clone()
            self.st = st
            summ.build(st, lambda xs: gl.mult(xs) > 0, cand)
            self.block(n.orelse)
            return
        s, kind, v = abrupt[k - 1]
        self.leave((s.clone(), kind, v))

    loopcache = {}

    def analyse_for(self, n, gl, coll, key):
        base = self.st.clone()
        self.st = base
        xs0 = tuple(fconst(s, "e") for s in gl.sorts)
        mark = name_mark()
        if not gl.distinct:
            t = base.clone()
            for x, cl in zip(xs0, self.gl_cls(gl)):
                t.add_term(x, cl)
            if self.prover.prove(t.facts, gl.mult(xs0) <= 1) != "proved":
                once = False
            else:
                once = True
        else:
            once = True
        live = coll.lid if isinstance(coll, ListV) else None

        def bind_and_run():
            self.assign(n.target, gl.val(xs0))
            op = self.loop_par
            self.loop_par = self.enc(xs0)
            try:
                self.block(n.body)
            finally:
                self.loop_par = op

        W = {}        # location -> class
        cand = None
        outs = None
        for rnd in range(40):
            name_reset(mark)
            self.ctx = (key, rnd)
            done = z3.Function(fresh_name("done"), *gl.sorts, B)
            S0 = self.mid_state(base, W, gl, xs0, done, cand)
            nb = self.mark_state(S0)
            outs = self.quiet_explore(bind_and_run, S0)
            normal = [(s, k, v) for s, k, v in outs if k in ("next", "cont")]
            if self.reclass(base, S0, normal, W, xs0, mark, once, live, n):
                cand = None
                continue
            if cand is None:
                cand = self.entry_candidates(base, W, gl)
                if cand:
                    continue
            bad = self.not_preserved(cand, normal, S0, gl, xs0, done, base)
            if not bad:
                break
            cand = [c for c in cand if c not in bad]
        else:
            raise Unsupported("loop did not stabilise")
        summ = Summary(self, base, W, gl, xs0, mark, normal, S0, n)
        self.ctx = (key, "final")
        # the general state before some iteration, with what is known of those done
        done = z3.Function(fresh_name("done"), *gl.sorts, B)
        st = base.clone()
        self.st = st
        summ.build(st, lambda xs: done(*xs), cand)
        self.done_facts(st, gl, xs0, done)
        abrupt = []
        self.st = base
        full = self.subexplore(bind_and_run, st)
        abrupt = [(s, k, v) for s, k, v in full if k not in ("next", "cont")]
        self.st = base
        self.loop_notes.append((getattr(n, "lineno", 0), len(normal), sorted("%s:%s" % ("/".join(map(str, k[:3])), v[0]) for k, v in W.items()),
                                [c[0] for c in cand]))
        return base, summ, cand, abrupt

    def leave(self, out):
        s, kind, v = out
        self.st = s
        if kind == "brk":
            return
        if kind == "ret":
            raise ReturnSig(v)
        if kind == "exc":
            raise PyExc(v)
        if kind == "end":
            raise EndPath()
        raise Unsupported("loop outcome " + kind)

    def quiet_explore(self, thunk, st):
        self.in_quiet += 1
        try:
            return self.subexplore(thunk, st)
        finally:
            self.in_quiet -= 1

    def done_facts(self, st, gl, xs0, done):
        sv, self.st = self.st, st
        for x, cl in zip(xs0, self.gl_cls(gl)):
            st.add_term(x, cl)
        st.assume(gl.mult(xs0) > 0)
        st.assume(Not(done(*xs0)))
        st.assume_all(gl.sorts, lambda *xs: Implies(done(*xs), gl.mult(xs) > 0), "done", self.gl_cls(gl))
        v = gl.val(xs0)
        self.reg(v)
        self.st = sv

    def mark_state(self, st):
        return len(st.facts)

    def mid_state(self, base, W, gl, xs0, done, cand):
        st = base.clone()
        ep = name_mark()
        sv, self.st = self.st, st
        try:
            if gl is not None:
                self.done_facts(st, gl, xs0, done)
            for loc, cl in W.items():
                self.havoc_loc(st, loc, cl, ep, done)
            for c in cand or []:
                dn = (lambda xs: done(*xs)) if done is not None else None
                self.assume_goal(c[1](st.frozen(), dn))
        finally:
            self.st = sv
        return st

    def havoc_loc(self, st, loc, cl, ep, done=None):
        if loc[0] == "fm":
            m = st.fm[loc[1]]
            if cl[0] == "point" and done is not None:
                pats = cl[1]
                hv = FieldMap.uf(m.name + "~", m.argsorts, m.t, havoced=True)
                st.fm[loc[1]] = m.upd(lambda a: Or(*[And(self.pat_guard(p, a), done(*p[1](a))) for p in pats]),
                                      lambda a: hv.read(a).cs)
                st.fm[loc[1]].epoch = ep
            else:
                st.fm[loc[1]] = m.havoc(None, ep)
                if cl[0] in ("append", "len"):
                    old, new = m, st.fm[loc[1]]
                    if cl[0] == "len" and not m.argsorts:
                        st.assume(new.read(()).e >= old.read(()).e)
                    elif all(s in (Ref, S, R, I) for s in m.argsorts):
                        st.assume_all(m.argsorts, lambda *a: new.read(a).e >= old.read(a).e, "grow",
                                      self.fam_cls(st, loc[1], m))
        elif loc[0] == "local":
            st.locals[loc[1]][loc[2]] = self.havoc_val(cl, loc[2])
        elif loc[0] == "field":
            st.objs[loc[1]].fields[loc[2]] = self.havoc_val(cl, loc[2])
        elif loc[0] == "list":
            r = st.lists[loc[1]]
            r.conc = list(r.conc) + [Seg(Hidden())]
        elif loc[0] == "events":
            st.events.append(Event("loop", ()))
        elif loc[0] == "ghost":
            st.ghost[loc[1]] = self.havoc_val(cl, loc[1])

    def havoc_val(self, cl, nm):
        if cl[0] == "typed":
            v = fresh(cl[1], str(nm))
            return self.reg(v)
        return Poison("changed in a loop")

    def class_of_val(self, old, new):
        """How a changed variable is generalised."""
        try:
            ts = [self.type_of(v) for v in (old, new)]
            return ("typed", self.join_type(ts[0], ts[1]))
        except Unsupported:
            return ("poison",)

    def reclass(self, base, S0, normal, W, xs0, mark, once, live, n):
        """Add newly changed locations to W; True if anything changed."""
        ch = False
        for st, kind, v in normal:
            # those which change the representation come first
            for loc in sorted(self.changed(S0, st, mark), key=lambda x: x[0] not in ("list", "dict")):
                if loc[0] == "fm":
                    if loc[1] not in base.fm:
                        base.fm[loc[1]] = S0.fm[loc[1]]
                    cl = self.class_fm(S0, st, loc[1], xs0, once, W.get(loc))
                    if live is not None and loc[1] == "cnt:" + live:
                        raise Unsupported("list changed while it is iterated")
                elif loc[0] in ("local", "field", "ghost"):
                    if loc[0] == "local":
                        old = base.locals[loc[1]].get(loc[2], Loops)
                        new = st.locals[loc[1]].get(loc[2], Loops)
                    elif loc[0] == "field":
                        old = base.objs[loc[1]].fields.get(loc[2], Loops)
                        new = st.objs[loc[1]].fields.get(loc[2], Loops)
                    else:
                        old, new = base.ghost.get(loc[1], Loops), st.ghost.get(loc[1], Loops)
                    if old is Loops or new is Loops:
                        cl = ("poison",)
                    else:
                        cl = self.class_of_val(old, new)
                        prev = W.get(loc)
                        if prev is not None and prev[0] == "typed" and cl[0] == "typed":
                            try:
                                cl = ("typed", self.join_type(prev[1], cl[1]))
                            except Unsupported:
                                cl = ("poison",)
                        elif prev is not None and prev[0] == "poison":
                            cl = prev
                elif loc[0] == "list":
                    q, r = st.lists[loc[1]], S0.lists[loc[1]]
                    if q.conc is None or len(q.conc) < len(r.conc) or any(x is not y for x, y in zip(q.conc, r.conc)):
                        # not only appended to
                        if ("list", loc[1]) in W:
                            raise Unsupported("list changed in a loop")
                        el = q.elem
                        if q.conc is not None:
                            el = None
                            for x in list(q.conc) + list(r.conc):
                                if isinstance(x, Seg):
                                    raise Unsupported("list changed in a loop")
                                t = self.type_of(x)
                                el = t if el is None else self.join_type(el, t)
                        sv, self.st = self.st, base
                        try:
                            self.listify(ListV(loc[1]), el)
                        finally:
                            self.st = sv
                        return True
                    if xs0 is None:
                        els = [x for x in q.conc]
                        el = None
                        for x in els:
                            if isinstance(x, Seg):
                                raise Unsupported("list changed in a loop")
                            t = self.type_of(x)
                            el = t if el is None else self.join_type(el, t)
                        sv, self.st = self.st, base
                        try:
                            self.listify(ListV(loc[1]), el)
                        finally:
                            self.st = sv
                        return True
                    cl = ("concappend",)
                elif loc[0] == "dict":
                    q = st.dicts[loc[1]]
                    sv, self.st = self.st, base
                    try:
                        if q.t is not None:
                            self.dictify(DictV(loc[1]), q.t.key, q.t.elem)
                        else:
                            kt = vt = None
                            for k, (p, v) in q.conc.items():
                                a, b = self.type_of(k), self.type_of(v)
                                kt = a if kt is None else self.join_type(kt, a)
                                vt = b if vt is None else self.join_type(vt, b)
                            self.dictify(DictV(loc[1]), kt, vt)
                    finally:
                        self.st = sv
                    return True
                elif loc[0] == "events":
                    cl = ("events",)
                else:
                    cl = ("other",)
                if W.get(loc) != cl and not self.same_class(W.get(loc), cl):
                    W[loc] = cl
                    ch = True
        return ch

    def same_class(self, a, b):
        if a is None or a[0] != b[0]:
            return False
        if a[0] == "point":
            return len(a[2]) >= len(b[2]) and all(k in a[2] for k in b[2])
        if a[0] == "typed":
            return a[1] == b[1]
        return True

    def class_fm(self, S0, st, fam, xs0, once, prev):
        if prev is not None and prev[0] == "havoc" or xs0 is None:
            return ("havoc",)
        ups = self.diff_ups(S0.fm[fam], st.fm[fam])
        if ups is None:
            return ("havoc",)
        kinds = set()
        pats, keys = [], []
        for g, v in ups:
            if type(g) is AppendPt:
                kinds.add("append")
            elif type(g) is AppendLen:
                kinds.add("len")
            elif type(g) is Point and type(v) is Const:
                p = self.pattern(g.idx, xs0) if once else None
                if p is None:
                    return ("havoc",)
                if any(isinstance(q, tuple) and not self.loop_const(q[2], S0) for q in p[0]):
                    return ("havoc",)
                kinds.add("point")
                pats.append(p)
                keys.append(tuple(str(t) for t in g.idx))
            else:
                return ("havoc",)
        if len(kinds) != 1:
            return ("havoc",)
        k = kinds.pop()
        if prev is not None and prev[0] != k:
            return ("havoc",)
        if k == "point":
            if prev is not None:
                for p, q in zip(prev[1], prev[2]):
                    if q not in keys:
                        pats.append(p)
                        keys.append(q)
            return ("point", pats, keys)
        return (k,)

    def loop_const(self, t, S0):
        return True

    # ================================================================ candidates
    def entry_candidates(self, base, W, gl):
        out = []
        if not W and gl is not None:
            return out
        pool = list(self.loop_pool(self, base, gl, W)) if self.loop_pool else []
        pool += self.auto_candidates(base, W, gl)
        for name, fn in pool:
            try:
                sv, self.st = self.st, base.clone()
                try:
                    g = fn(self.st, (lambda xs: False) if gl is not None else None)
                finally:
                    self.st = sv
                if g is not None and self.prove_goal(g, base, 2000):
                    out.append((name, fn))
            except Unsupported:
                continue
        return out

    def auto_candidates(self, base, W, gl):
        """Bounds on changed numbers, and unchanged optionality."""
        out = []
        for loc, cl in W.items():
            if loc[0] in ("local", "field") and cl[0] == "typed":
                def get(st, loc=loc):
                    return st.locals[loc[1]].get(loc[2]) if loc[0] == "local" else st.objs[loc[1]].fields.get(loc[2])
                v0 = get(base)
                t = cl[1]
                if t in (INT, REAL, DT, TD):
                    for op in ("<=", ">="):
                        def fn(st, done, get=get, v0=v0, op=op, t=t):
                            v = self.coerce(get(st), t)
                            w = self.coerce(v0, t)
                            return v.cs[0] <= w.cs[0] if op == "<=" else v.cs[0] >= w.cs[0]
                        out.append(("%s %s initial" % (loc[2], op), fn))
        return out

    def not_preserved(self, cand, normal, S0, gl, xs0, done, base):
        bad = []
        for c in cand:
            for st, kind, v in normal:
                def dn(xs):
                    return Or(done(*xs), And(*[term_eq(a, b) for a, b in zip(xs, xs0)]))
                sv, self.st = self.st, st.clone()
                try:
                    g = c[1](self.st, dn if gl is not None else None)
                    ok = self.prove_goal(g, self.st, 3000)
                except Unsupported:
                    ok = False
                finally:
                    self.st = sv
                if not ok:
                    bad.append(c)
                    break
        return bad

    # ================================================================ while
    def loop_while(self, n):
        base0 = self.st
        key = ("while", self.ctx, tuple(d for d, _ in self.script[:self.pos]), name_mark(), self.in_quiet,
               len(base0.facts), id(n))
        c = self.loopcache.get(key)
        if c is None:
            octx = self.ctx
            try:
                exits = self.analyse_while(n, key)
            finally:
                self.ctx = octx
                self.st = base0
            c = (exits, name_mark())
            self.loopcache[key] = c
        exits, hi = c
        name_reset(hi)
        if not exits:
            raise Infeasible()
        k = self.pick(len(exits))
        s, kind, v = exits[k]
        if kind == "next":
            self.st = s.clone()
            self.block(n.orelse)
            return
        self.leave((s.clone(), kind, v))

    def analyse_while(self, n, key):
        base = self.st.clone()
        self.st = base
        mark = name_mark()
        W = {}
        cand = None

        def run():
            if not self.test(self.ev(n.test)):
                raise LoopDone()
            self.block(n.body)

        def run1():
            try:
                run()
            except LoopDone:
                return "done"
            return "again"
        for rnd in range(40):
            name_reset(mark)
            self.ctx = (key, rnd)
            S0 = self.mid_state(base, W, None, None, None, cand)
            outs = self.quiet_explore(run1, S0)
            normal = [(s, k, v) for s, k, v in outs if k == "cont" or k == "next" and v == "again"]
            if self.reclass(base, S0, normal, W, None, mark, True, None, n):
                cand = None
                continue
            if cand is None:
                cand = self.entry_candidates(base, W, None)
                if cand:
                    continue
            bad = self.not_preserved(cand, normal, S0, None, None, None, base)
            if not bad:
                break
            cand = [c for c in cand if c not in bad]
        else:
            raise Unsupported("loop did not stabilise")
        self.loop_notes.append((n.lineno, len(normal), sorted("%s:%s" % ("/".join(map(str, k[:3])), v[0]) for k, v in W.items()),
                                [c[0] for c in cand]))
        self.ctx = (key, "final")
        S0 = self.mid_state(base, W, None, None, None, cand)
        outs = self.subexplore(run1, S0)
        return [(s, k, v) for s, k, v in outs if not (k == "cont" or k == "next" and v == "again")]


class LoopDone(Exception):
    pass


class Summary:
    """The effect of the iterations for a set of elements."""

    def __init__(self, ex, base, W, gl, xs0, mark, normal, S0, n):
        self.ex, self.base, self.W, self.gl, self.xs0, self.mark = ex, base, W, gl, xs0, mark
        self.normal, self.S0, self.n = normal, S0, n
        self.nf = len(base.facts)
        self.nu = len(base.univ)
        self.fz = Functionalise(ex, mark, xs0)
        self.sel = z3.Function(fresh_name("sel"), *gl.sorts, I) if len(normal) > 1 else None

    def cond(self, k, xs):
        return True if self.sel is None else self.sel(*xs) == k

    def build(self, st, member, cand):
        ex, gl, fz = self.ex, self.gl, self.fz
        ep = name_mark()
        if not self.normal:
            # no iteration completes: nothing has been done
            st.assume_all(gl.sorts, lambda *xs: Not(member(xs)), "none", ex.gl_cls(gl))
            return
        if self.sel is not None:
            st.assume_all(gl.sorts, lambda *xs: Implies(member(xs), And(self.sel(*xs) >= 0,
                                                                        self.sel(*xs) < len(self.normal))), "sel",
                          ex.gl_cls(gl))
        for k, (s, kind, v) in enumerate(self.normal):
            fs = fz.own(s, self.nf)
            if fs:
                st.assume_all(gl.sorts, lambda *xs, fs=fs, k=k: Implies(
                    And(member(xs), self.cond(k, xs)), And(*[fz.expr(f, xs) for f in fs])), "iter", ex.gl_cls(gl))
            for u in s.univ[self.nu:]:
                if u.name in ("done", "grow", "sel", "iter"):
                    continue
                ex.assume_univ(gl, u, fz, lambda xs, k=k: self.cond(k, xs), member)
        for loc, cl in self.W.items():
            if loc[0] == "fm":
                self.fm(st, loc[1], cl, member, ep)
            elif loc[0] == "list":
                self.conc(st, loc[1], member)
            elif loc[0] == "events":
                self.events(st, member)
            else:
                ex.havoc_loc(st, loc, cl, ep, None)
        for c in cand:
            ex.assume_goal(c[1](st.frozen(), member))

    def events(self, st, member):
        ne = len(self.base.events)
        for k, (s, kind, v) in enumerate(self.normal):
            for e in s.events[ne:]:
                if e.kind == "loop":
                    continue
                st.events.append(Event(e.kind, e.args, e.guard, e.snap, bulk=(self, k, member)))

    def fm(self, st, fam, cl, member, ep):
        ex, fz = self.ex, self.fz
        m = self.base.fm[fam]
        if cl[0] == "point":
            for k, (s, kind, v) in enumerate(self.normal):
                for g, val in ex.diff_ups(self.S0.fm[fam], s.fm[fam]) or ():
                    pat = ex.pattern(g.idx, self.xs0)

                    def guard(a, pat=pat, k=k):
                        xs = pat[1](a)
                        pg = ex.pat_guard(pat, a, fz)
                        if pg is False:
                            return False
                        return And(pg, member(xs), self.cond(k, xs))

                    def value(a, pat=pat, cs=val.cs):
                        xs = pat[1](a)
                        return [fz.expr(c, xs) for c in cs]
                    m = m.upd(guard, value)
            st.fm[fam] = m
            return
        if cl[0] == "append":
            pats = []
            for k, (s, kind, v) in enumerate(self.normal):
                for g, val in ex.diff_ups(self.S0.fm[fam], s.fm[fam]) or ():
                    pats.append((k, g, ex.pattern(g.idx, self.xs0)))
            if all(p is not None for _, _, p in pats):
                old = m

                def value(a):
                    t = old.read(a).e
                    for k, g, pat in pats:
                        xs = pat[1](a)
                        c = And(ex.pat_guard(pat, a, fz), member(xs), self.cond(k, xs))
                        if c is not False:
                            t = t + Ite(zb(c), z3.IntVal(1), z3.IntVal(0))
                    return (t,)
                st.fm[fam] = m.upd(lambda a: True, value)
                return
            new = m.havoc(None, ep)
            st.fm[fam] = new
            old = m
            fc = ex.fam_cls(st, fam, m)
            st.assume_all(m.argsorts, lambda *a: new.read(a).e >= old.read(a).e, "grow", fc)
            for k, g, pat in pats:
                def reg(*xs, k=k, g=g):
                    at = [fz.expr(t, xs) for t in g.idx]
                    for t in at:
                        st.add_term(t)
                    return Implies(And(member(xs), self.cond(k, xs)), new.read(at).e >= 1)
                st.assume_all(self.gl.sorts, reg, "appended", ex.gl_cls(self.gl))
            wit = [z3.Function(fresh_name("from"), *m.argsorts, s) for s in self.gl.sorts]

            def orig(*a):
                xs = tuple(w(*a) for w in wit)
                alts = []
                for k, g, pat in pats:
                    alts.append(And(self.cond(k, xs), *[fz.expr(t, xs) == y for t, y in zip(g.idx, a)]))
                if z3.is_app(a[0]) and a[0].decl().name().startswith("from!"):
                    return True
                return Implies(new.read(a).e > old.read(a).e, And(member(xs), Or(*alts)))
            st.assume_all(m.argsorts, orig, "origin", fc)
            return
        ex.havoc_loc(st, ("fm", fam), cl, ep, None)

    def conc(self, st, lid, member):
        ex, fz, gl = self.ex, self.fz, self.gl
        r = st.lists[lid]
        nb = len(self.S0.lists[lid].conc)
        items = list(r.conc)
        for k, (s, kind, v) in enumerate(self.normal):
            for x in s.lists[lid].conc[nb:]:
                if isinstance(x, Seg):
                    raise Unsupported("nested segments")
                items.append(Seg(self.seg(x, k, member)))
        r.conc = items

    def seg(self, x, k, member):
        ex, fz, gl = self.ex, self.fz, self.gl
        if isinstance(x, SV):
            pat = ex.pattern(x.cs, self.xs0)
            if pat is not None:
                def mult(a):
                    xs = pat[1](a)
                    c = And(ex.pat_guard(pat, a, fz), member(xs), self.cond(k, xs))
                    return Ite(zb(c), z3.IntVal(1), z3.IntVal(0))
                return GenL(x.t.sorts, mult, lambda a: norm(SV(x.t, a)), ident=x.t, distinct=True)

        def mult(xs):
            return Ite(zb(And(member(xs), self.cond(k, xs))), z3.IntVal(1), z3.IntVal(0))
        return GenL(gl.sorts, mult, lambda xs: fz.value(x, xs), distinct=False)
