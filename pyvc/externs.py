"""Trusted models of the interpreter's built-ins, the standard library and the
system calls.  Every model used by a proof is listed in the evidence."""
import z3

from .core import *
from .core import And, Or, Not, Implies, Iff, Ite, term_eq, simp, zb
from .exec import *
from .exec import norm, realval, simp_e, is_native, GenL, Seg, IterV, fixed_fm
from .loops import All, Ex

X = {}


def ext(*names):
    def deco(f):
        for n in names:
            X[n] = f
        return f
    return deco


def sv(ex, v, t):
    return ex.coerce(v, t)


# ------------------------------------------------------------------ built-ins
@ext("builtins.len")
def _len(ex, f, a, kw):
    v = ex.unopt(a[0])
    if ex.is_seq(v):
        return norm(SV(INT, [simp_e(z3.Length(ex.seq_read(v)))]))
    return ex.length(v)


@ext("builtins.isinstance")
def _isinstance(ex, f, a, kw):
    v, t = a
    if isinstance(t, tuple):
        return ex.mkbool(Or(*[ex.truth(_isinstance(ex, f, [v, x], kw)) for x in t]))
    if isinstance(t, ExtV):
        return isinst_ext(ex, v, t)
    if isinstance(v, SV) and is_opt(v.t):
        if t is type(None):
            return ex.mkbool(Not(v.cs[0]))
        inner = _isinstance(ex, f, [norm(SV(v.t.elem, v.cs[1:])), t], kw)
        return ex.mkbool(And(v.cs[0], ex.truth(inner)))
    if isinstance(v, ExcV):
        return ex.exc_matches(v, t)
    if isinstance(v, SV) and v.t == JV:
        if t is int:
            return ex.mkbool(simp(z3.Or(J.is_jint(v.e), J.is_jbool(v.e))))
        if t is object:
            return True
        return ex.mkbool(ex.type_eq(TypeOf(v), t))
    if isinstance(v, (ModV, ExtV, FuncV, ClassV, type, BoundV)):
        return False
    if isinstance(v, SV) and v.t == TZ or isinstance(v, SV) and v.t in (DT, NDT, TD):
        return False
    pt = ex.pytype(v)
    if isinstance(t, ClassV):
        return isinstance(pt, ClassV) and ex.prog.is_subclass(pt, t)
    if isinstance(pt, type) and isinstance(t, type):
        return issubclass(pt, t)
    if isinstance(pt, ClassV) and isinstance(t, type):
        return t is object
    if isinstance(pt, T) or isinstance(pt, str):
        return False
    raise Unsupported("isinstance of %r %r" % (v, t))


def isinst_ext(ex, v, t):
    if isinstance(v, SV) and is_opt(v.t):
        return ex.mkbool(And(v.cs[0], ex.truth(isinst_ext(ex, norm(SV(v.t.elem, v.cs[1:])), t))))
    n = t.name
    tz = isinstance(v, SV) and v.t == TZ
    if n == "datetime.tzinfo":
        if isinstance(v, SV) and is_opaque(v.t):
            raise Unsupported("isinstance")
        return tz
    if n == "datetime.datetime":
        return isinstance(v, SV) and v.t in (DT, NDT)
    if n == "datetime.timedelta":
        return isinstance(v, SV) and v.t == TD
    raise Unsupported("isinstance of %r %s" % (v, n))


@ext("builtins.sorted")
def _sorted(ex, f, a, kw):
    it = ex.iterate(a[0])
    key, rev = kw.get("key"), kw.get("reverse", False)
    if isinstance(it, list):
        if all(is_native(x) for x in it) and key is None:
            try:
                return ex.new_list(sorted(it, reverse=bool(rev)))
            except TypeError:
                ex.raise_(TypeError)
        if len(it) <= 1:
            return ex.new_list(it)
        raise Unsupported("sorting a list of symbolic values")

    def kf(v):
        return v if key is None else ex.call(key, [v], {})
    if isinstance(a[0], (ListV, GenL, DictV)) and it.ident is not None:
        return ex.list_copy(it, order=(kf, bool(rev)))
    g = GenL(it.sorts, it.mult, it.val, order=(kf, bool(rev)), ident=it.ident, ln=it.ln, distinct=it.distinct)
    return ex.list_copy(g, order=(kf, bool(rev)))


def minmax(ex, f, a, kw, op):
    if len(a) == 1:
        it = ex.iterate(a[0])
        if not isinstance(it, list):
            raise Unsupported("min/max of a symbolic collection")
        a = it
        if not a:
            if "default" in kw:
                return kw["default"]
            ex.raise_(ValueError)
    if "key" in kw:
        raise Unsupported("min/max with key")
    r = a[0]
    for x in a[1:]:
        c = ex.cmp_vals(op, x, r)
        r = ex.ite(simp(c) if not isinstance(c, bool) else c, x, r)
    return r


@ext("builtins.min")
def _min(ex, f, a, kw):
    return minmax(ex, f, a, kw, "<")


@ext("builtins.max")
def _max(ex, f, a, kw):
    return minmax(ex, f, a, kw, ">")


@ext("builtins.abs")
def _abs(ex, f, a, kw):
    v = a[0]
    if is_native(v):
        return abs(v)
    if v.t in (INT, REAL, TD):
        return SV(v.t, [z3.If(v.e < 0, -v.e, v.e)])
    raise Unsupported("abs")


def anyall(ex, coll, isall):
    it = ex.iterate(coll)
    if isinstance(coll, ListV):
        r = ex.lrec(coll)
        if r.conc is not None:
            it = []
            for x in r.conc:
                it.append(x)
    if isinstance(it, list):
        out = []
        for x in it:
            if isinstance(x, Seg):
                b = fconst(B, "all" if isall else "any")
                g = x.gl

                def tr(xs, g=g):
                    return ex.truth(g.val(xs))
                w = tuple(fconst(s, "w") for s in g.sorts)
                if isall:
                    ex.st.assume_all(g.sorts, lambda *xs: Implies(And(b, g.mult(xs) > 0), tr(xs)), "all")
                    ex.st.assume(Implies(Not(b), And(g.mult(w) > 0, Not(tr(w)))))
                else:
                    ex.st.assume_all(g.sorts, lambda *xs: Implies(And(Not(b), g.mult(xs) > 0), Not(tr(xs))), "any")
                    ex.st.assume(Implies(b, And(g.mult(w) > 0, tr(w))))
                for y in w:
                    ex.add_term(y)
                out.append(b)
            else:
                out.append(ex.truth(x))
        return ex.mkbool(And(*out) if isall else Or(*out))
    return anyall(ex, ex.new_list([Seg(it)]), isall)


@ext("builtins.all")
def _all(ex, f, a, kw):
    return anyall(ex, a[0], True)


@ext("builtins.any")
def _any(ex, f, a, kw):
    return anyall(ex, a[0], False)


@ext("builtins.next")
def _next(ex, f, a, kw):
    v = a[0]
    it = v.coll if isinstance(v, IterV) else ex.iterate(v)
    if isinstance(v, ListV):
        # a generator expression: its first element
        c = ex.conc_list(v)
        if c is not None:
            if c:
                return c[0]
        else:
            r = ex.lrec(v)
            if r.conc is not None and len(r.conc) == 1 and isinstance(r.conc[0], Seg):
                it = r.conc[0].gl
            else:
                it = ex.list_gl(v)
            n = ex.length(it)
            ne = z3.IntVal(n) if isinstance(n, int) else n.e
            if ex.decide(ne > 0):
                return it.val(ex.witness(it, ("at", 0)))
        if len(a) > 1:
            return a[1]
        ex.raise_(StopIteration)
    raise Unsupported("next")


@ext("builtins.iter")
def _iter(ex, f, a, kw):
    return a[0]


@ext("builtins.range")
def _range(ex, f, a, kw):
    if all(isinstance(x, int) for x in a):
        return ex.new_list(list(range(*a)))
    if len(a) == 1:
        n = ex.coerce(a[0], INT).e
        return GenL((I,), lambda xs: z3.If(z3.And(xs[0] >= 0, xs[0] < n), z3.IntVal(1), z3.IntVal(0)),
                    lambda xs: SV(INT, xs), ident=INT, ln=z3.If(n > 0, n, z3.IntVal(0)), distinct=True)
    raise Unsupported("range")


@ext("builtins.enumerate")
def _enumerate(ex, f, a, kw):
    it = ex.iterate(a[0])
    st = a[1] if len(a) > 1 else kw.get("start", 0)
    if isinstance(it, list):
        return ex.new_list([(i + st, x) for i, x in enumerate(it)])
    raise Unsupported("enumerate")


@ext("builtins.zip")
def _zip(ex, f, a, kw):
    its = [ex.iterate(x) for x in a]
    if all(isinstance(x, list) for x in its):
        return ex.new_list(list(zip(*its)))
    raise Unsupported("zip")


@ext("builtins.repr")
def _repr(ex, f, a, kw):
    return ex.to_str(a[0], rep=True)


@ext("builtins.print")
def _print(ex, f, a, kw):
    ex.st.events.append(Event("print", tuple(a)))


@ext("builtins.hasattr")
def _hasattr(ex, f, a, kw):
    raise Unsupported("hasattr")


@ext("builtins.getattr")
def _getattr(ex, f, a, kw):
    if isinstance(a[1], str):
        return ex.load_attr(a[0], a[1])
    raise Unsupported("getattr")


@ext("builtins.setattr")
def _setattr(ex, f, a, kw):
    if isinstance(a[1], str):
        return ex.store_attr(a[0], a[1], a[2])
    raise Unsupported("setattr with a computed name")


@ext("builtins.round")
def _round(ex, f, a, kw):
    return fresh(INT, "round") if len(a) == 1 else fresh(REAL, "round")


@ext("builtins.callable")
def _callable(ex, f, a, kw):
    return isinstance(a[0], (FuncV, BoundV, ClassV, ExtV, type))


# ------------------------------------------------------------------ strings
@ext("str.format")
def _format(ex, f, a, kw):
    if isinstance(f.recv, str):
        return ex.do_format(f.recv, a, kw)
    return ex.fresh_str()


@ext("str.join")
def _join(ex, f, a, kw):
    v = a[0]
    c = ex.conc_list(v) if isinstance(v, (tuple, ListV)) else None
    if c is not None:
        parts = []
        for i, x in enumerate(c):
            x = ex.num_json(ex.unopt(x))
            if not (isinstance(x, str) or isinstance(x, SV) and x.t == STR):
                ex.raise_(TypeError)
            if i:
                parts.append(f.recv)
            parts.append(x)
        return ex.concat(parts)
    it = ex.iterate(v)
    if isinstance(it, GenL):
        x = it.val(tuple(fconst(s, "j") for s in it.sorts))
        if not (isinstance(x, str) or isinstance(x, SV) and x.t == STR):
            raise Unsupported("join of other values")
    return ex.fresh_str()


def strf(name, native, sym):
    def h(ex, f, a, kw):
        r = f.recv
        if is_native(r) and all(is_native(x) for x in a):
            try:
                v = getattr(r, name)(*a)
            except (TypeError, ValueError) as e:
                ex.raise_(type(e))
            return ex.new_list(v) if isinstance(v, list) else v
        return sym(ex, ex.coerce(r, STR), a)
    X["str." + name] = h


strf("startswith", True, lambda ex, s, a: ex.mkbool(Or(*[z3.PrefixOf(ex.coerce(p, STR).e, s.e)
                                                       for p in (a[0] if isinstance(a[0], tuple) else (a[0],))])))
strf("endswith", True, lambda ex, s, a: ex.mkbool(Or(*[z3.SuffixOf(ex.coerce(p, STR).e, s.e)
                                                     for p in (a[0] if isinstance(a[0], tuple) else (a[0],))])))


def sfun(name):
    def h(ex, s, a):
        if a:
            return ex.fresh_str()
        return SV(STR, [z3.Function("str." + name, S, S)(s.e)])
    return h


for _n in ("upper", "lower", "strip", "rstrip", "lstrip", "title"):
    strf(_n, True, sfun(_n))
strf("replace", True, lambda ex, s, a: SV(STR, [z3.Function("str.replace", S, S, S, S)(
    s.e, ex.coerce(a[0], STR).e, ex.coerce(a[1], STR).e)]))
strf("encode", True, lambda ex, s, a: SV(OpaqueT("bytes"), [z3.Function("str.encode", S, I)(s.e)]))


def _split(ex, s, a):
    return SV(OpaqueT("strlist"), [z3.Function("str.split", S, S, I)(s.e, ex.coerce(a[0], STR).e if a
                                                                  else z3.StringVal("<ws>"))])


strf("split", True, _split)
strf("isdigit", True, lambda ex, s, a: ex.mkbool(z3.InRe(s.e, z3.Plus(z3.Range("0", "9")))))


@ext("iter:strlist")
def _iter_strlist(ex, v):
    n = z3.Function("strlist.len", I, I)(v.e)
    at = z3.Function("strlist.at", I, I, S)
    ex.st.assume(n >= 1)
    return GenL((I,), lambda xs: z3.If(z3.And(xs[0] >= 0, xs[0] < n), z3.IntVal(1), z3.IntVal(0)),
                lambda xs: SV(STR, [at(v.e, xs[0])]), ln=n, distinct=True)


# ------------------------------------------------------------------ lists, dicts
@ext("list.append")
def _append(ex, f, a, kw):
    if isinstance(f.recv, SV):
        raise Unsupported("append to json")
    ex.list_append(f.recv, a[0])


@ext("list.remove")
def _remove(ex, f, a, kw):
    ex.list_remove(f.recv, a[0])


@ext("list.extend")
def _extend(ex, f, a, kw):
    ex.list_extend(f.recv, a[0])


@ext("list.copy")
def _lcopy(ex, f, a, kw):
    return ex.list_copy(f.recv)


@ext("list.index", "list.insert", "list.reverse")
def _lno(ex, f, a, kw):
    raise Unsupported(f.name)


@ext("list.clear")
def _lclear(ex, f, a, kw):
    l = f.recv
    r = ex.lrec(l)
    if r.conc is not None:
        r.conc[:] = []
        return
    ex.set_list(l, ex.new_list([]))


@ext("list.sort")
def _lsort(ex, f, a, kw):
    l = f.recv
    r = ex.lrec(l)
    if r.conc is not None and all(is_native(x) for x in r.conc) and not kw:
        r.conc.sort()
        return
    key, rev = kw.get("key"), kw.get("reverse", False)

    def kf(v):
        return v if key is None else ex.call(key, [v], {})
    r.order = (kf, bool(rev))
    if r.conc is not None:
        for x in r.conc:
            if isinstance(x, Seg) and len(r.conc) == 1:
                g = x.gl
                r.conc = [Seg(GenL(g.sorts, g.mult, g.val, order=(kf, bool(rev)), ident=g.ident, ln=g.ln,
                                   distinct=g.distinct))]


@ext("list.pop")
def _lpop(ex, f, a, kw):
    l = f.recv
    r = ex.lrec(l)
    if r.conc is not None and not any(isinstance(x, Seg) for x in r.conc):
        try:
            return r.conc.pop(*a)
        except IndexError:
            ex.raise_(IndexError)
    if r.conc is not None:
        ex.listify(l)
    g = ex.list_gl(l)
    n = ex.length(g)
    if not ex.decide(n > 0 if isinstance(n, int) else n.e > 0):
        ex.raise_(IndexError)
    k = a[0] if a else -1
    v = g.val(ex.witness(g, ("pop", k, id(g))))
    ex.st.ghost["popped"] = ex.st.ghost.get("popped", ()) + ((l.lid, v),) \
        if isinstance(ex.st.ghost.get("popped", ()), tuple) else ((l.lid, v),)
    ex.list_remove(l, v)
    return v


@ext("dict.get")
def _dget(ex, f, a, kw):
    d = f.recv
    dflt = a[1] if len(a) > 1 else None
    p = ex.dict_has(d, a[0])
    if isinstance(p, bool):
        return ex.dict_val(d, a[0]) if p else dflt
    if ex.decide(p):
        return ex.dict_val(d, a[0])
    return dflt


@ext("dict.items")
def _ditems(ex, f, a, kw):
    r = ex.drec(f.recv)
    if r.conc is not None and all(p is True for p, _ in r.conc.values()):
        return ex.new_list([(k, v) for k, (p, v) in r.conc.items()])
    return ex.dict_keys_gl(f.recv, "items")


@ext("dict.keys")
def _dkeys(ex, f, a, kw):
    r = ex.drec(f.recv)
    if r.conc is not None and all(p is True for p, _ in r.conc.values()):
        return ex.new_list(list(r.conc))
    return ex.dict_keys_gl(f.recv, "keys")


@ext("dict.values")
def _dvalues(ex, f, a, kw):
    r = ex.drec(f.recv)
    if r.conc is not None and all(p is True for p, _ in r.conc.values()):
        return ex.new_list([v for k, (p, v) in r.conc.items()])
    return ex.dict_keys_gl(f.recv, "values")


@ext("dict.update")
def _dupdate(ex, f, a, kw):
    for v in a:
        if isinstance(v, DictV) and ex.drec(v).conc is not None:
            for k, (p, x) in list(ex.drec(v).conc.items()):
                if p is not True:
                    raise Unsupported("conditional dict entries")
                ex.dict_set(f.recv, k, x)
        else:
            raise Unsupported("dict.update")
    for k, x in kw.items():
        ex.dict_set(f.recv, k, x)


@ext("dict.setdefault")
def _dsetdefault(ex, f, a, kw):
    if not ex.decide(ex.dict_has(f.recv, a[0])):
        ex.dict_set(f.recv, a[0], a[1] if len(a) > 1 else None)
    return ex.dict_val(f.recv, a[0])


@ext("dict.pop")
def _dpop(ex, f, a, kw):
    if ex.decide(ex.dict_has(f.recv, a[0])):
        v = ex.dict_val(f.recv, a[0])
        ex.dict_del(f.recv, a[0])
        return v
    if len(a) > 1:
        return a[1]
    ex.raise_(KeyError)


# ------------------------------------------------------------------ json values
def jcase(ex, e, what):
    """The receiver of a dict method must be a dict."""
    if not ex.decide({"d": J.is_jdict, "l": J.is_jlist, "s": J.is_jstr}[what](e)):
        if what == "d":
            ex.raise_(AttributeError)
        ex.raise_(AttributeError)


@ext("json.items")
def _jitems(ex, f, a, kw):
    jcase(ex, f.recv.e, "d")
    return ex.json_items_gl(f.recv.e, "items")


@ext("json.keys")
def _jkeys(ex, f, a, kw):
    jcase(ex, f.recv.e, "d")
    return ex.json_items_gl(f.recv.e, "keys")


@ext("json.values")
def _jvalues(ex, f, a, kw):
    jcase(ex, f.recv.e, "d")
    return ex.json_items_gl(f.recv.e, "values")


@ext("json.get")
def _jget(ex, f, a, kw):
    jcase(ex, f.recv.e, "d")
    dflt = a[1] if len(a) > 1 else None
    e = f.recv.e
    p = ex.jdict_has(e, a[0])
    v = ex.jdict_val(e, a[0])
    try:
        return ex.ite(simp(p), v, SV(JV, [ex.to_json(dflt)]))
    except Unsupported:
        return v if ex.decide(p) else dflt


@ext("json.dumps")
def _jdumps(ex, f, a, kw):
    v = a[0]
    if isinstance(v, SV) and v.t == JV:
        ok = z3.Function("json.dumpable", J, B)(v.e)
        if not ex.decide(ok):
            ex.raise_(ValueError if ex.maybe("dumpexc") else TypeError)
        return SV(STR, [z3.Function("json.text", J, S)(v.e)])
    try:
        e = ex.to_json(v)
    except Unsupported:
        return ex.fresh_str()
    return SV(STR, [z3.Function("json.text", J, S)(e)])


# ------------------------------------------------------------------ copy, random
@ext("copy.copy")
def _copy(ex, f, a, kw):
    v = ex.unopt(a[0])
    if isinstance(v, ListV) and not ex.is_seq(v):
        return ex.list_copy(v)
    if is_native(v):
        return v
    if ex.is_seq(v):
        lid = fresh_name("L")
        ex.st.lists[lid] = ListRec(SEQ, None, 0)
        l = ListV(lid)
        ex.seq_write(l, ex.seq_read(v))
        return l
    raise Unsupported("copy of %r" % (v,))


@ext("random.shuffle")
def _shuffle(ex, f, a, kw):
    v = a[0]
    if isinstance(v, ListV):
        r = ex.lrec(v)
        r.order = None
        if r.conc is not None and len(r.conc) > 1:
            if any(isinstance(x, Seg) for x in r.conc):
                return
            raise Unsupported("shuffle of a known list")
        if not v.lid.startswith("L!"):
            # a list which belongs to an object loses its order too
            ex.st.events.append(Event("shuffled", (v,)))


@ext("random.randint")
def _randint(ex, f, a, kw):
    v = fresh(INT, "rand")
    ex.st.assume(And(v.e >= ex.coerce(a[0], INT).e, v.e <= ex.coerce(a[1], INT).e))
    return v


@ext("uuid.uuid4")
def _uuid4(ex, f, a, kw):
    return SV(OpaqueT("uuid"), [fconst(I, "uuid")])


# ------------------------------------------------------------------ time
@ext("datetime.datetime.now")
def _now(ex, f, a, kw):
    v = SV(NDT, [fconst(R, "now")])
    n = ex.st.ghost.get("nows", ())
    ex.st.ghost["nows"] = (n if isinstance(n, tuple) else ()) + (v,)
    return v


@ext("dt.astimezone", "ndt.astimezone")
def _astz(ex, f, a, kw):
    tz = a[0] if a else None
    tz = ex.unopt(tz)
    if tz is None:
        return SV(DT, [f.recv.cs[0], LOCAL_TZ])
    if isinstance(tz, SV) and tz.t == TZ:
        return SV(DT, [f.recv.cs[0], tz.e])
    if isinstance(tz, SV) and tz.t == OpaqueT("tzlike"):
        return SV(DT, [f.recv.cs[0], tz.e])
    ex.raise_(TypeError)


@ext("datetime.datetime.fromtimestamp")
def _fromts(ex, f, a, kw):
    v = ex.coerce(ex.num_json(ex.unopt(a[0])), REAL)
    if ex.opts.get("time_errors") and ex.maybe("ts_range"):
        ex.raise_(OverflowError if ex.maybe("ts_kind") else ValueError)
    return SV(NDT, [v.e])


@ext("dt.timestamp", "ndt.timestamp")
def _ts(ex, f, a, kw):
    return SV(REAL, [f.recv.cs[0]])


@ext("dt.replace", "ndt.replace")
def _dtreplace(ex, f, a, kw):
    if list(kw) == ["tzinfo"] and not a:
        tz = ex.unopt(kw["tzinfo"])
        if tz is None:
            return SV(NDT, [z3.Function("wall.local", R, I, R)(f.recv.cs[0], f.recv.cs[1])]) \
                if f.recv.t == DT else f.recv
        if isinstance(tz, SV) and tz.t == TZ:
            if f.recv.t == NDT:
                return SV(DT, [z3.Function("wall.in", R, I, R)(f.recv.cs[0], tz.e), tz.e])
            return SV(DT, [z3.Function("wall.move", R, I, I, R)(f.recv.cs[0], f.recv.cs[1], tz.e), tz.e])
    raise Unsupported("datetime.replace")


@ext("dt.strftime", "ndt.strftime", "dt.isoformat", "ndt.isoformat", "dt.ctime")
def _strftime(ex, f, a, kw):
    xs = list(f.recv.cs) + [ex.coerce(x, STR).e for x in a]
    if kw:
        raise Unsupported(f.name)
    return SV(STR, [z3.Function(f.name.split(".")[1] + "." + f.recv.t.name, *[c.sort() for c in xs], S)(*xs)])


@ext("datetime.timedelta")
def _timedelta(ex, f, a, kw):
    t = z3.RealVal(0)
    mul = {"seconds": 1, "minutes": 60, "hours": 3600, "days": 86400, "milliseconds": realval(0.001),
           "weeks": 604800, "microseconds": z3.Q(1, 1000000)}
    for k, v in zip(("days", "seconds"), a):
        kw[k] = v
    for k, v in kw.items():
        v = ex.num_json(ex.unopt(v))
        if v is None or isinstance(v, str):
            ex.raise_(TypeError)
        if isinstance(v, SV) and v.t not in (INT, REAL, BOOL):
            ex.raise_(TypeError)
        t = t + ex.coerce(v, REAL).e * mul[k]
    if ex.opts.get("time_errors") and ex.maybe("td_range"):
        ex.raise_(OverflowError)
    return SV(TD, [simp_e(t)])


@ext("td.total_seconds")
def _total(ex, f, a, kw):
    return SV(REAL, [f.recv.e])


@ext("time.time")
def _time(ex, f, a, kw):
    return SV(REAL, [fconst(R, "now")])


@ext("time.sleep")
def _sleep(ex, f, a, kw):
    v = ex.coerce(ex.unopt(a[0]), REAL)
    ex.st.events.append(Event("sleep", (v,), snap=ex.st.clone() if ex.opts.get("snap_sleep") else None))
    h = ex.opts.get("on_sleep")
    if h:
        h(ex, v)


@ext("math.log")
def _log(ex, f, a, kw):
    if len(a) > 1:
        raise Unsupported("log with base")
    x = ex.coerce(ex.num_json(ex.unopt(a[0])), REAL)
    if not ex.decide(x.e > 0):
        ex.raise_(ValueError)
    return SV(REAL, [z3.Function("log", R, R)(x.e)])


# ------------------------------------------------------------------ paths, files
def join2(a, b):
    return z3.Function("path.join", S, S, S)(a, b)


@ext("os.path.join")
def _pjoin(ex, f, a, kw):
    vs = []
    for x in a:
        x = ex.num_json(ex.unopt(x))
        if not (isinstance(x, str) or isinstance(x, SV) and x.t == STR):
            ex.raise_(TypeError)
        vs.append(x)
    r = ex.coerce(vs[0], STR).e
    for x in vs[1:]:
        r = join2(r, ex.coerce(x, STR).e)
    return SV(STR, [r])


def fs_pred(name):
    def h(ex, f, a, kw):
        """The answer of the file system at this moment."""
        p = ex.coerce(ex.num_json(ex.unopt(a[0])), STR)
        b = fconst(B, name)
        ex.st.events.append(Event("fs." + name, (p, SV(BOOL, [b]))))
        return SV(BOOL, [b])
    return h


X["os.path.exists"] = fs_pred("exists")
X["os.path.isdir"] = fs_pred("isdir")
X["os.path.isfile"] = fs_pred("isfile")
X["os.access"] = fs_pred("access")


@ext("os.path.basename", "os.path.dirname", "os.path.abspath", "os.path.expanduser", "os.path.realpath")
def _pfun(ex, f, a, kw):
    return SV(STR, [z3.Function(f.name, S, S)(ex.coerce(a[0], STR).e)])


@ext("os.makedirs", "os.mkdir")
def _makedirs(ex, f, a, kw):
    ex.st.events.append(Event("makedirs", (ex.coerce(a[0], STR),)))


class FileObj:
    pass


def file_obj(ex, kind, path, mode):
    addr = fresh_name("file")
    ex.st.objs[addr] = ObjRec("file", {"path": path, "mode": mode, "kind": kind, "fd": SV(INT, [fconst(I, "fd")])})
    return ObjRef(addr)


@ext("builtins.open")
def _open(ex, f, a, kw):
    mode = a[1] if len(a) > 1 else kw.get("mode", "r")
    p = ex.coerce(ex.unopt(a[0]), STR)
    if ex.opts.get("open_errors") and ex.maybe("open_fails"):
        ex.raise_(OSError)
    ex.st.events.append(Event("open", (p, mode)))
    return file_obj(ex, "plain", p, mode)


@ext("file.fileno")
def _fileno(ex, f, a, kw):
    return ex.st.objs[f.recv.addr].fields["fd"]


@ext("file.close")
def _fclose(ex, f, a, kw):
    ex.st.events.append(Event("close", (f.recv,)))


@ext("os.remove", "os.unlink")
def _remove_file(ex, f, a, kw):
    if ex.opts.get("open_errors") and ex.maybe("remove_fails"):
        ex.raise_(OSError)
    ex.st.events.append(Event("remove", (ex.coerce(a[0], STR),)))


@ext("os.path.getmtime")
def _mtime(ex, f, a, kw):
    p = ex.coerce(a[0], STR)
    if ex.opts.get("open_errors") and ex.maybe("mtime_fails"):
        ex.raise_(OSError)
    v = SV(REAL, [fconst(R, "mtime")])
    ex.st.events.append(Event("mtime", (p, v)))
    return v


# ------------------------------------------------------------------ checksums
@ext("binascii.crc32", "zlib.crc32")
def _crc(ex, f, a, kw):
    if is_native(a[0]):
        import binascii
        return binascii.crc32(a[0])
    v = SV(INT, [z3.Function("crc32", I, I)(a[0].e)])
    ex.st.assume(z3.And(v.e >= 0, v.e <= 0xFFFFFFFF))
    return v


@ext("shlex.quote")
def _quote(ex, f, a, kw):
    return ex.fresh_str()


@ext("copy.deepcopy")
def _deepcopy(ex, f, a, kw):
    v = ex.unopt(a[0])
    if v is None or is_native(v):
        return v
    if isinstance(v, SV) and v.t in (INT, REAL, BOOL, STR, DT, NDT, TD, TZ):
        return v
    if isinstance(v, SV) and v.t == JV:
        h = ex.opts.get("deepcopy")
        if h:
            return h(ex, v)
        return json_copy(ex, v)
    raise Unsupported("deepcopy of %r" % (v,))


def json_copy(ex, v):
    """A json value equal to v of which no mutable part is shared: one level
    is explicit, below it equality is of contents by assumption."""
    e = v.e
    if ex.decide(Not(z3.Or(J.is_jdict(e), J.is_jlist(e)))):
        return v
    if ex.decide(J.is_jlist(e)):
        old = simp_e(J.jlid(e))
        jid = ex.new_jid("jlc")
        at, ln = ex.get_fm("J.at", (I, I), JV), ex.get_fm("J.len", (I,), INT)
        cp = z3.Function("json.copy", I, J, J)
        ex.st.fm["J.at"] = at.upd(lambda a: term_eq(a[0], jid), lambda a: at.read((old, a[1])).cs)
        ex.st.fm["J.len"] = ln.put((jid,), ln.read((old,)).cs)
        return SV(JV, [J.jlist(jid)])
    old = simp_e(J.jdid(e))
    jid = ex.new_jid("jdc")
    has, get = ex.jhas(), ex.jget()
    ex.st.fm["J.has"] = has.upd(lambda a: term_eq(a[0], jid), lambda a: has.read((old, a[1])).cs)
    ex.st.fm["J.get"] = get.upd(lambda a: term_eq(a[0], jid), lambda a: get.read((old, a[1])).cs)
    dl = z3.Function("J.dlen", I, I)
    ex.st.assume(dl(jid) == dl(old))
    ex.used_externs.add("copy.deepcopy (contents below the first level stay equal values)")
    return SV(JV, [J.jdict(jid)])
