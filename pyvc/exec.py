"""Symbolic execution of the extracted functions, path by path, with loops by
summaries and invariants and calls by contract."""
import ast
import importlib
import string

import z3

from . import core
from .core import *
from .core import And, Or, Not, Implies, Iff, Ite, term_eq, simp, zb
from .solve import Prover


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class PyExc(Exception):
    def __init__(self, exc):
        self.exc = exc


class EndPath(Exception):
    """The path ends without returning (exec, exit)."""


class YAMLError(Exception):
    """Stands for yaml.YAMLError."""


class OtherError(Exception):
    """Stands for any exception not derived from OSError or ValueError."""


class Seg:
    """A run of elements inside a concrete list."""

    def __init__(self, gl):
        self.gl = gl


class GenL:
    """The values val(xs), each mult(xs) times, for all terms xs of the sorts."""

    def __init__(self, sorts, mult, val, order=None, ident=None, ln=None, distinct=False):
        self.sorts, self.mult, self.val = tuple(sorts), mult, val
        self.order, self.ident, self.ln, self.distinct = order, ident, ln, distinct
        self.cache = {}


class IterV:
    """A one-shot iterator over a GenL or a list of values."""

    def __init__(self, coll):
        self.coll = coll


NATIVE_MODS = {"os", "signal", "math", "json", "stat", "errno", "sys", "shlex", "re", "string",
               "collections", "functools", "itertools", "operator"}
NATIVE_OK = (int, float, str, bytes, type(None), bool)
class CroniterBadDateError(ValueError):
    pass


EXC_ALIASES = {"croniter.CroniterBadDateError": CroniterBadDateError,
               "croniter.croniter.CroniterBadDateError": CroniterBadDateError, "yaml.YAMLError": YAMLError, "yaml.error.YAMLError": YAMLError,
               "yaml.scanner.ScannerError": YAMLError, "yaml.parser.ParserError": YAMLError,
               "json.JSONDecodeError": ValueError, "json.decoder.JSONDecodeError": ValueError}

BUILTIN_TYPES = {k: getattr(__import__("builtins"), k) for k in (
    "int", "float", "str", "bool", "dict", "list", "tuple", "set", "frozenset", "bytes", "type", "object",
    "bytearray", "complex")}
for _k, _v in list(vars(__import__("builtins")).items()):
    if isinstance(_v, type) and issubclass(_v, BaseException):
        BUILTIN_TYPES[_k] = _v
BUILTIN_FUNCS = {"len", "isinstance", "sorted", "min", "max", "sum", "all", "any", "next", "iter", "range",
                 "enumerate", "zip", "open", "repr", "getattr", "setattr", "hasattr", "print", "super", "reversed",
                 "map", "filter", "abs", "round", "callable", "id", "vars", "format", "ord", "chr", "issubclass",
                 "divmod", "pow", "hash"}


def is_native(v):
    if isinstance(v, (list, dict, set)):
        return False
    if isinstance(v, tuple):
        return all(is_native(x) for x in v)
    return v is None or isinstance(v, (bool, int, float, str, bytes)) or isinstance(v, type)


def cls_key(t):
    return t.cls


class Exec:
    def __init__(self, prog, schema, contracts, externs, prover=None, opts=None):
        self.prog, self.schema, self.contracts, self.externs = prog, schema, contracts, externs
        self.prover = prover or Prover()
        self.opts = opts or {}
        self.st = State()
        self.fid = None
        self.frames = {}
        self.script, self.pos, self.stack = [], 0, []
        self.root = None
        self.obligations = []
        self.depth = 0
        self.npaths = 0
        self.used_contracts = set()
        self.used_externs = set()
        self.inlined = set()
        self.loop_pool = None
        self.loop_notes = []
        self.in_quiet = 0
        self.ctx = ()
        self.subcache = {}
        self.subn = 0         # which subexplore of the path
        self.fmcache = {}
        self.loopcache = {}
        self.newfrom = 0
        self.sites = {}

    # ================================================================ paths
    def feasible(self, c):
        return self.prover.feasible(self.st.facts, zb(c))

    def decide(self, c):
        c = simp(c) if not isinstance(c, bool) else c
        if isinstance(c, bool):
            return c
        forced = False
        if self.pos < len(self.script):
            d, forced = self.script[self.pos]
        else:
            t = self.feasible(c)
            f = self.feasible(Not(c)) if t else True
            if t and f:
                self.stack.append(self.script[:] + [(False, False)])
                d = True
            else:
                d, forced = t, True
                if not t and not self.feasible(Not(c)):
                    raise Infeasible()
            self.script.append((d, forced))
        self.pos += 1
        self.st.assume(c if d else Not(c), "i" if forced else "b")
        return d

    def pick(self, n):
        """A nondeterministic choice among n alternatives."""
        if n == 1:
            return 0
        if self.pos < len(self.script):
            d = self.script[self.pos][0]
        else:
            for k in range(n - 1, 0, -1):
                self.stack.append(self.script[:] + [(k, False)])
            d = 0
            self.script.append((d, False))
        self.pos += 1
        return d

    def maybe(self, name="choice"):
        return self.decide(fconst(B, name))

    def explore(self, thunk, base=None, limit=4000):
        base = base or self.st
        saved = (self.st, self.script, self.pos, self.stack, self.fid, self.in_quiet, self.newfrom, self.depth, self.subn)
        mark = name_mark()
        hi = mark
        out = []
        stack = [[]]
        n = 0
        try:
            while stack:
                n += 1
                if n > limit:
                    raise Unsupported("too many paths")
                self.script = stack.pop()
                self.pos = 0
                self.newfrom = len(self.script)
                self.depth = saved[7]
                self.subn = 0
                self.stack = stack
                self.st = base.clone()
                self.fid = saved[4]
                name_reset(mark)
                try:
                    v = thunk()
                    res = ("next", v)
                except ReturnSig as e:
                    res = ("ret", e.v)
                except BreakSig:
                    res = ("brk", None)
                except ContinueSig:
                    res = ("cont", None)
                except PyExc as e:
                    res = ("exc", e.exc)
                except EndPath:
                    res = ("end", None)
                except Infeasible:
                    res = None
                hi = max(hi, name_mark())
                if res is not None:
                    out.append((self.st, res[0], res[1]))
        finally:
            (self.st, self.script, self.pos, self.stack, self.fid, self.in_quiet, self.newfrom,
             self.depth, self.subn) = saved
            name_reset(hi)
        self.npaths += len(out)
        return out

    def require(self, goal, name, sorts=None, fn=None):
        """An obligation at this point of this path."""
        if not self.in_quiet and self.pos >= self.newfrom:
            self.obligations.append((name, self.st.clone(), goal))
        self.assume_goal(goal)

    def raise_(self, cls, *args):
        raise PyExc(ExcV(cls, args))

    # ================================================================ state
    def wrote(self, loc):
        if self.st.writes is not None:
            self.st.writes.append(loc)

    def didread(self, loc):
        if self.st.reads is not None:
            self.st.reads.append(loc)

    def field_type(self, fam):
        cls, _, f = fam.partition(".")
        t = self.schema.get(cls, {}).get(f)
        return t

    def get_fm(self, fam, argsorts=None, t=None, st=None, old_only=None):
        st = st or self.st
        m = st.fm.get(fam)
        if m is None:
            if t is None:
                t = self.field_type(fam)
                argsorts = (Ref,)
            if t is None:
                raise Unsupported("undeclared field " + fam)
            k = (fam, tuple(argsorts), old_only is None)
            m = self.fmcache.get(k)
            if m is None:
                m = self.fmcache[k] = fixed_fm(fam, argsorts, t, old_only)
            st.fm[fam] = m
        return m

    def reg(self, v):
        if isinstance(v, SV):
            for c, cl in zip(v.cs, t_classes(v.t)):
                if c.sort() in (Ref, J, S):
                    self.st.add_term(c, cl)
        return v

    def reg_all(self, v):
        for c, cl in zip(v.cs, t_classes(v.t)):
            self.st.add_term(c, cl)

    def fmread(self, fam, args, argsorts=None, t=None):
        m = self.get_fm(fam, argsorts, t)
        self.didread(("fm", fam, tuple(args)))
        v = m.read(args)
        v = norm(v)
        if isinstance(v, SV):
            for i, c in enumerate(v.cs):
                self.st.prov[c.get_id()] = (fam, tuple(args), c)
                if c.sort() == Ref and m.epoch is not None:
                    k = known_by(c, m.epoch)
                    g = v.cs[0] if is_opt(v.t) else True
                    if k is not True:
                        self.st.assume(Implies(g, k), "i")
        self.reg(v)
        return v

    def fmwrite(self, fam, args, v, argsorts=None, t=None):
        m = self.get_fm(fam, argsorts, t)
        if v is None and not is_opt(m.t) and m.t != JV:
            # not set yet; its later value is not assumed
            v = fresh(m.t, fam)
        v = self.coerce(v, m.t)
        self.wrote(("fm", fam))
        self.st.fm[fam] = m.put(args, v.cs)

    # ---- coercion of values to a type
    def coerce(self, v, t):
        if isinstance(v, SV) and v.t == t:
            return v
        if is_opt(t):
            if v is None or (isinstance(v, SV) and v.t.name == "opt:none"):
                return SV(t, [z3.BoolVal(False)] + [dummy(s) for s in t.sorts[1:]])
            if isinstance(v, SV) and is_opt(v.t):
                inner = self.coerce(SV(v.t.elem, v.cs[1:]), t.elem)
                return SV(t, [v.cs[0]] + list(inner.cs))
            inner = self.coerce(v, t.elem)
            return SV(t, [z3.BoolVal(True)] + list(inner.cs))
        if isinstance(v, SV) and is_opt(v.t):
            # a value known to be there
            if self.decide(v.cs[0]):
                return self.coerce(SV(v.t.elem, v.cs[1:]), t)
            raise Unsupported("None where %s is needed" % t)
        if t == BOOL and isinstance(v, bool):
            return SV(t, [z3.BoolVal(v)])
        if t == INT:
            if isinstance(v, bool):
                return SV(t, [z3.IntVal(int(v))])
            if isinstance(v, int):
                return SV(t, [z3.IntVal(int(v))])
            if isinstance(v, SV) and v.t == BOOL:
                return SV(t, [z3.If(v.e, z3.IntVal(1), z3.IntVal(0))])
        if t == REAL:
            if isinstance(v, (int, float)):
                return SV(t, [realval(v)])
            if isinstance(v, SV) and v.t == INT:
                return SV(t, [z3.ToReal(v.e)])
        if t == STR:
            if isinstance(v, str):
                return SV(t, [z3.StringVal(v)])
            if isinstance(v, SV) and v.t == JV:
                if self.decide(J.is_jstr(v.e)):
                    return SV(STR, [J.js(v.e)])
                raise Unsupported("json value where str is needed")
        if t == JV:
            return SV(JV, [self.to_json(v)])
        if t == TZ and isinstance(v, SV) and v.t == INT:
            return SV(TZ, v.cs)
        if is_ref(t) and isinstance(v, SV) and is_ref(v.t):
            return SV(t, v.cs)
        if is_opaque(t) and isinstance(v, Opaque):
            return fresh(t)
        if t == REAL and isinstance(v, SV) and v.t == JV:
            pass
        raise Unsupported("cannot take %r as %s" % (v, t))

    def to_json(self, v):
        if v is None:
            return J.jnone
        if isinstance(v, bool):
            return J.jbool(z3.BoolVal(v))
        if isinstance(v, int):
            return J.jint(z3.IntVal(v))
        if isinstance(v, float):
            return J.jreal(realval(v))
        if isinstance(v, str):
            return J.jstr(z3.StringVal(v))
        if isinstance(v, SV):
            if v.t == JV:
                return v.e
            if v.t == BOOL:
                return J.jbool(v.e)
            if v.t == INT:
                return J.jint(v.e)
            if v.t == REAL:
                return J.jreal(v.e)
            if v.t == STR:
                return J.jstr(v.e)
            if is_opt(v.t):
                return z3.If(v.cs[0], self.to_json(SV(v.t.elem, v.cs[1:])), J.jnone)
        if isinstance(v, DictV):
            return self.dict_to_json(v)
        if isinstance(v, ListV):
            return self.list_to_json(v)
        raise Unsupported("not a json value: %r" % (v,))

    def new_jid(self, p="jd"):
        fresh_name(p)
        if self.loop_par is not None:
            j = fconst(I, p)
            self.st.assume(j < -1000000000)
            return j
        return z3.IntVal(-1000000 - name_mark())

    def dict_to_json(self, d):
        jid = self.new_jid()
        rec = self.st.dicts[d.did]
        has, get = self.jhas(), self.jget()
        if rec.conc is not None:
            has = has.upd(lambda a, j=jid: term_eq(a[0], j), lambda a: (z3.BoolVal(False),))
            for k, (p, v) in rec.conc.items():
                kk = self.to_json(k)
                has = has.put((jid, kk), (zb(p),))
                get = get.put((jid, kk), (self.to_json(v),))
            ln = sum([Ite(p, z3.IntVal(1), z3.IntVal(0)) for p, _ in rec.conc.values()], z3.IntVal(0))
        else:
            h, g = self.dict_fms(d)
            kt = rec.t.key
            if kt == JV:
                has = has.upd(lambda a, j=jid: term_eq(a[0], j), lambda a: h.read(d.idx + (a[1],)).cs)
                get = get.upd(lambda a, j=jid: term_eq(a[0], j),
                              lambda a: (self.to_json(norm(g.read(d.idx + (a[1],)))),))
            elif kt == STR:
                has = has.upd(lambda a, j=jid: term_eq(a[0], j),
                              lambda a: (And2(J.is_jstr(a[1]), h.read(d.idx + (J.js(a[1]),)).e),))
                get = get.upd(lambda a, j=jid: term_eq(a[0], j),
                              lambda a: (self.to_json(norm(g.read(d.idx + (J.js(a[1]),)))),))
            else:
                raise Unsupported("dict to json")
        self.wrote(("fm", "J.has"))
        self.wrote(("fm", "J.get"))
        self.st.fm["J.has"], self.st.fm["J.get"] = has, get
        return J.jdict(jid)

    def list_to_json(self, l):
        jid = self.new_jid("jl")
        rec = self.st.lists[l.lid]
        if rec.conc is None or any(isinstance(x, Seg) for x in rec.conc):
            raise Unsupported("symbolic list to json")
        at = self.get_fm("J.at", (I, I), JV)
        ln = self.get_fm("J.len", (I,), INT)
        for i, x in enumerate(rec.conc):
            at = at.put((jid, z3.IntVal(i)), (self.to_json(x),))
        ln = ln.put((jid,), (z3.IntVal(len(rec.conc)),))
        self.wrote(("fm", "J.at"))
        self.wrote(("fm", "J.len"))
        self.st.fm["J.at"], self.st.fm["J.len"] = at, ln
        return J.jlist(jid)

    def jhas(self, st=None):
        return self.get_fm("J.has", (I, J), BOOL, st)

    def jget(self, st=None):
        return self.get_fm("J.get", (I, J), JV, st)

    # ---- type of a value, and joins
    def type_of(self, v):
        if v is None:
            return OptT(NONE)
        if isinstance(v, bool):
            return BOOL
        if isinstance(v, int):
            return INT
        if isinstance(v, float):
            return REAL
        if isinstance(v, str):
            return STR
        if isinstance(v, SV):
            return v.t
        raise Unsupported("no type for %r" % (v,))

    def join_type(self, a, b):
        if a == b:
            return a
        if a.name == "opt:none":
            return OptT(b)
        if b.name == "opt:none":
            return OptT(a)
        if is_opt(a) and is_opt(b):
            return OptT(self.join_type(a.elem, b.elem))
        if is_opt(a):
            return OptT(self.join_type(a.elem, b))
        if is_opt(b):
            return OptT(self.join_type(a, b.elem))
        if {a, b} <= {INT, REAL, BOOL}:
            return REAL if REAL in (a, b) else INT
        if JV in (a, b):
            return JV
        raise Unsupported("no common type of %s and %s" % (a, b))

    def ite(self, c, a, b):
        """Value-level if-then-else."""
        if c is True:
            return a
        if c is False:
            return b
        if a is b:
            return a
        if is_native(a) and is_native(b) and type(a) == type(b) and a == b:
            return a
        if isinstance(a, (ObjRef, ClassV)) and a == b:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.ite(c, x, y) for x, y in zip(a, b))
        if isinstance(a, ListV) and isinstance(b, ListV) and a.lid == b.lid and \
                len(a.idx) == len(b.idx) and all(x.sort() == y.sort() for x, y in zip(a.idx, b.idx)):
            return ListV(a.lid, [Ite(c, x, y) for x, y in zip(a.idx, b.idx)])
        if isinstance(a, DictV) and isinstance(b, DictV) and a.did == b.did:
            return DictV(a.did, [Ite(c, x, y) for x, y in zip(a.idx, b.idx)])
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("merge")
        t = self.join_type(self.type_of(a), self.type_of(b))
        x, y = self.coerce(a, t), self.coerce(b, t)
        return norm(SV(t, [Ite(c, p, q) for p, q in zip(x.cs, y.cs)]))

    # ================================================================ truth and equality
    def truth(self, v):
        """The z3 (or bool) truth value."""
        if isinstance(v, SV):
            t = v.t
            if t == BOOL:
                return v.e
            if t in (INT, REAL, TD):
                return v.e != 0
            if t == STR:
                return v.e != z3.StringVal("")
            if is_opt(t):
                return And(v.cs[0], self.truth(norm(SV(t.elem, v.cs[1:]))))
            if is_ref(t) or t in (DT, NDT, TZ):
                return True
            if t == JV:
                e = v.e
                return simp(z3.Or(z3.And(J.is_jbool(e), J.jb(e)), z3.And(J.is_jint(e), J.ji(e) != 0),
                             z3.And(J.is_jreal(e), J.jr(e) != 0), z3.And(J.is_jstr(e), J.js(e) != z3.StringVal("")),
                             z3.And(J.is_jlist(e), self.jlen(J.jlid(e)) != 0),
                             z3.And(J.is_jdict(e), self.jdlen(J.jdid(e)) != 0), J.is_jother(e)))
            if t.name in ("opaque:optobj",):
                raise Unsupported("truth of " + t.name)
            if is_opaque(t):
                return True
        if isinstance(v, (ObjRef, FuncV, BoundV, ClassV, ExtV, ModV, type, ExcV)):
            return True
        if isinstance(v, (ListV, GenL)):
            n = self.length(v)
            return n != 0 if isinstance(n, int) else n.e > 0
        if isinstance(v, DictV):
            n = self.length(v)
            return n != 0 if isinstance(n, int) else n.e > 0
        if is_native(v):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        raise Unsupported("truth of %r" % (v,))

    def jlen(self, jid):
        m = self.get_fm("J.len", (I,), INT)
        return m.read((jid,)).e

    def jdlen(self, jid):
        f = z3.Function("J.dlen", I, I)
        return f(jid)

    def test(self, v):
        return self.decide(self.truth(v))

    def eq(self, a, b):
        if isinstance(a, SV) and is_opt(a.t):
            if b is None:
                return Not(a.cs[0])
            if isinstance(b, SV) and is_opt(b.t):
                return Or(And(Not(a.cs[0]), Not(b.cs[0])),
                          And(a.cs[0], b.cs[0], self.eq(norm(SV(a.t.elem, a.cs[1:])), norm(SV(b.t.elem, b.cs[1:])))))
            return And(a.cs[0], self.eq(norm(SV(a.t.elem, a.cs[1:])), b))
        if isinstance(b, SV) and is_opt(b.t):
            return self.eq(b, a)
        if isinstance(a, SV) and a.t == JV or isinstance(b, SV) and b.t == JV:
            try:
                x, y = self.to_json(a), self.to_json(b)
            except Unsupported:
                if isinstance(a, (TypeOf,)) or isinstance(b, TypeOf):
                    raise
                return False
            # ints and floats compare by value
            return z3.Or(x == y, z3.And(J.is_jint(x), J.is_jreal(y), z3.ToReal(J.ji(x)) == J.jr(y)),
                         z3.And(J.is_jreal(x), J.is_jint(y), z3.ToReal(J.ji(y)) == J.jr(x)))
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            return self.type_eq(a, b)
        if isinstance(a, SV) or isinstance(b, SV):
            if a is None or b is None:
                return False
            try:
                ta, tb = self.type_of(a), self.type_of(b)
            except Unsupported:
                if isinstance(a, Opaque) or isinstance(b, Opaque):
                    raise
                return False
            num = {INT, REAL, BOOL}
            if ta in num and tb in num:
                t = self.join_type(ta, tb)
            elif ta == tb:
                t = ta
            elif {ta, tb} == {DT, NDT}:
                return False
            else:
                return False
            if t == DT:  # aware times compare by instant
                return term_eq(a.cs[0], b.cs[0])
            if is_ref(t):
                self.check_no_eq(t)
            x, y = self.coerce(a, t), self.coerce(b, t)
            return And(*[term_eq(p, q) for p, q in zip(x.cs, y.cs)])
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return And(*[self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, (ListV, GenL)) and isinstance(b, (ListV, GenL)) or \
                isinstance(a, DictV) and isinstance(b, DictV):
            ca, cb = self.conc_list(a), self.conc_list(b)
            if ca is not None and cb is not None:
                return len(ca) == len(cb) and And(*[self.eq(x, y) for x, y in zip(ca, cb)])
            raise Unsupported("comparison of containers")
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return fconst(B, "opaque_eq")
        if isinstance(a, ObjRef) or isinstance(b, ObjRef):
            return a == b if isinstance(a, ObjRef) and isinstance(b, ObjRef) else False
        if is_native(a) and is_native(b):
            return a == b
        if isinstance(a, ClassV) or isinstance(b, ClassV):
            return isinstance(a, ClassV) and isinstance(b, ClassV) and a == b
        if isinstance(a, (ListV, DictV)) or isinstance(b, (ListV, DictV)):
            return False
        raise Unsupported("equality of %r and %r" % (a, b))

    def check_no_eq(self, t):
        for m in self.prog.mods:
            c = self.prog.names[m].get(t.cls)
            if isinstance(c, ClassV):
                if self.prog.method(c, "__eq__") is not None:
                    raise Unsupported("class %s defines __eq__" % t.cls)

    def type_eq(self, a, b):
        if isinstance(b, TypeOf) and not isinstance(a, TypeOf):
            a, b = b, a
        if isinstance(b, TypeOf):
            raise Unsupported("comparison of two types")
        v = a.v
        if isinstance(v, SV) and is_opt(v.t):
            if b is type(None):
                return Not(v.cs[0])
            return And(v.cs[0], self.type_eq(TypeOf(norm(SV(v.t.elem, v.cs[1:]))), b))
        if isinstance(v, SV) and v.t == JV:
            e = v.e
            m = {type(None): J.is_jnone, bool: J.is_jbool, int: J.is_jint, float: J.is_jreal, str: J.is_jstr,
                 list: J.is_jlist, dict: J.is_jdict}
            if b in m:
                return m[b](e)
            return False
        pt = self.pytype(v)
        return pt == b

    def pytype(self, v):
        if isinstance(v, SV):
            m = {BOOL: bool, INT: int, REAL: float, STR: str}
            if v.t in m:
                return m[v.t]
            if is_ref(v.t):
                for mod in self.prog.mods:
                    c = self.prog.names[mod].get(v.t.cls)
                    if isinstance(c, ClassV):
                        return c
            return v.t
        if isinstance(v, (ListV,)):
            return list
        if isinstance(v, DictV):
            return dict
        if isinstance(v, ObjRef):
            return self.st.objs[v.addr].cls
        if is_native(v):
            return type(v)
        if isinstance(v, tuple):
            return tuple
        if isinstance(v, ExcV):
            return v.cls
        raise Unsupported("type of %r" % (v,))

    def unopt(self, v, exc=TypeError):
        """The value behind an optional one; None stays None (a path each)."""
        while isinstance(v, SV) and is_opt(v.t):
            if self.decide(v.cs[0]):
                v = norm(SV(v.t.elem, v.cs[1:]))
            else:
                return None
        return v

    # ================================================================ lists
    def new_list(self, items, elem=None):
        lid = fresh_name("L")
        self.st.lists[lid] = ListRec(elem, list(items))
        return ListV(lid)

    def lrec(self, l):
        r = self.st.lists.get(l.lid)
        if r is None:
            t = self.field_type(l.lid)
            if t is None or not is_list(t):
                raise Unsupported("unknown list " + l.lid)
            r = ListRec(t.elem, None, 1)
            self.st.lists[l.lid] = r
        return r

    def list_fms(self, l, st=None):
        st = st or self.st
        r = st.lists.get(l.lid)
        if r is None:
            r = self.lrec(l)
        idxsorts = [x.sort() for x in l.idx]
        zero = [z3.IntVal(0)]
        c = self.get_fm("cnt:" + l.lid, tuple(idxsorts) + r.elem.sorts, INT, st, zero)
        n = self.get_fm("len:" + l.lid, tuple(idxsorts), INT, st, zero)
        return c, n

    def conc_list(self, v):
        """The elements if they are concretely known, else None."""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, ListV):
            r = self.lrec(v)
            self.didread(("list", v.lid))
            if r.conc is not None and not any(isinstance(x, Seg) for x in r.conc):
                return list(r.conc)
        return None

    def listify(self, l, elem=None):
        """Make a list's contents symbolic fields."""
        r = self.lrec(l)
        if r.conc is None:
            return r
        if elem is None:
            elem = r.elem
        for x in r.conc:
            if elem is None:
                elem = x.gl.ident if isinstance(x, Seg) else self.type_of(x)
            elif not isinstance(x, Seg):
                elem = self.join_type(elem, self.type_of(x))
        if elem is None:
            raise Unsupported("element type of list")
        c = FieldMap("cnt:" + l.lid, elem.sorts, INT, lambda a: [z3.IntVal(0)])
        n = FieldMap("len:" + l.lid, (), INT, lambda a: [z3.IntVal(0)])
        total = z3.IntVal(0)
        for x in r.conc:
            if isinstance(x, Seg):
                g = x.gl
                if g.ident is None or g.ident != elem:
                    raise Unsupported("list of computed values")
                old = c
                c = old.upd(lambda a: True, lambda a, old=old, g=g: (old.read(a).e + g.mult(a),))
                total = total + self.length(g).e if not isinstance(self.length(g), int) else total + self.length(g)
            else:
                v = self.coerce(x, elem)
                c = c.put(v.cs, (c.read(v.cs).e + 1,))
                total = total + 1
        n = n.put((), (total,))
        self.st.fm["cnt:" + l.lid], self.st.fm["len:" + l.lid] = c, n
        r.conc, r.elem, r.nidx = None, elem, 0
        return r

    def list_gl(self, v):
        """A snapshot of a list as a GenL."""
        if isinstance(v, GenL):
            return v
        r = self.lrec(v)
        if r.conc is not None:
            self.listify(v)
            r = self.lrec(v)
        c, n = self.list_fms(v)
        self.didread(("fm", "cnt:" + v.lid, v.idx))
        idx = tuple(v.idx)
        el = r.elem
        ln = n.read(idx).e
        key = ("gl", v.lid, tuple(x.get_id() for x in idx), id(c), id(n))
        if key in self.st.prov:
            return self.st.prov[key][0]
        g = GenL(el.sorts, lambda xs: c.read(idx + tuple(xs)).e, lambda xs: norm(SV(el, xs)), ident=el, ln=ln,
                 order=r.order)
        self.st.prov[key] = (g, c, n, idx)
        return g

    def length(self, v):
        """int or SV INT"""
        if isinstance(v, (str, bytes, tuple)):
            return len(v)
        if isinstance(v, SV) and v.t == STR:
            return SV(INT, [z3.Length(v.e)])
        if isinstance(v, ListV):
            c = self.conc_list(v)
            if c is not None:
                return len(c)
            self.didread(("fm", "len:" + v.lid, v.idx))
            return self.length(self.list_gl(v))
        if isinstance(v, GenL):
            if ("len", id(v)) not in self.st.prov:
                n = v.ln if v.ln is not None else fconst(I, "len")
                self.st.assume(n >= 0)
                w = [fconst(s, "w") for s in v.sorts]
                self.st.assume(z3.Implies(n > 0, v.mult(tuple(w)) > 0))
                self.st.assume_all(v.sorts, lambda *xs: z3.And(v.mult(xs) <= n, v.mult(xs) >= 0), "len", self.gl_cls(v))
                for x, cl in zip(w, self.gl_cls(v)):
                    self.add_term(x, cl)
                if v.ident is not None:
                    self.reg(v.val(tuple(w)))
                self.st.prov[("len", id(v))] = (SV(INT, [n]), v)
            return norm(self.st.prov[("len", id(v))][0])
        if isinstance(v, DictV):
            r = self.drec(v)
            if r.conc is not None:
                if all(p is True for p, _ in r.conc.values()):
                    return len(r.conc)
                return SV(INT, [z3.Sum([z3.If(zb(p), z3.IntVal(1), z3.IntVal(0)) for p, _ in r.conc.values()])])
            return self.length(self.dict_keys_gl(v))
        if isinstance(v, SV) and v.t == JV:
            if self.decide(J.is_jstr(v.e)):
                return SV(INT, [z3.Length(J.js(v.e))])
            if self.decide(J.is_jlist(v.e)):
                n = self.jlen(J.jlid(v.e))
                self.st.assume(n >= 0)
                return SV(INT, [n])
            if self.decide(J.is_jdict(v.e)):
                n = self.jdlen(J.jdid(v.e))
                self.st.assume(n >= 0)
                return SV(INT, [n])
            self.raise_(TypeError)
        if isinstance(v, SV) and is_opaque(v.t) and v.t.cls == "bytes":
            return SV(INT, [z3.Function("bytes.len", I, I)(v.e)])
        if isinstance(v, SV) and is_opaque(v.t) and "len:" + v.t.cls in self.externs:
            return self.externs["len:" + v.t.cls](self, v)
        if v is None or isinstance(v, (int, float)):
            self.raise_(TypeError)
        if isinstance(v, SV) and is_opt(v.t):
            return self.length(self.unopt(v))
        raise Unsupported("len of %r" % (v,))

    def add_term(self, x, cls=None):
        self.st.add_term(x, cls)

    def gl_cls(self, g):
        if g.ident is not None and len(g.ident.sorts) == len(g.sorts):
            return t_classes(g.ident)
        return (None,) * len(g.sorts)

    def contains_gl(self, g, v):
        """A boolean for v being among the values of g."""
        if g.ident is not None:
            try:
                t = self.type_of(v)
                if g.ident != t:
                    if is_opt(t):
                        return And(v.cs[0], self.contains_gl(g, norm(SV(t.elem, v.cs[1:]))))
                    if v is None:
                        return False
                    if is_ref(g.ident) != is_ref(t):
                        return False
                cv = self.coerce(v, g.ident)
            except Unsupported:
                return False
            self.reg_all(cv)
            return g.mult(cv.cs) > 0
        b = fconst(B, "in")
        w = [fconst(s, "w") for s in g.sorts]
        self.st.assume(Implies(b, And(g.mult(tuple(w)) > 0, self.eq(g.val(tuple(w)), v))))
        for x, cl in zip(w, self.gl_cls(g)):
            self.add_term(x, cl)
        self.st.assume_all(g.sorts, lambda *xs: Implies(And(Not(b), g.mult(xs) > 0),
                                                         Not(self.eq(g.val(xs), v))), "notin", self.gl_cls(g))
        return b

    def witness(self, g, key):
        """An element of the (non-empty) g; the same one for the same key."""
        if (key, id(g)) in self.st.prov:
            return self.st.prov[(key, id(g))][0]
        w = tuple(fconst(s, "w") for s in g.sorts)
        self.st.assume(g.mult(w) > 0)
        for x, cl in zip(w, self.gl_cls(g)):
            self.add_term(x, cl)
        if g.order is not None and key in (("at", 0), ("at", -1)):
            kf, rev = g.order
            lo = (key[1] == 0) != rev
            kw = kf(g.val(w))

            def extremal(*xs):
                kx = kf(g.val(xs))
                le = self.cmp_vals("<=", kw, kx) if lo else self.cmp_vals("<=", kx, kw)
                return Implies(g.mult(xs) > 0, le)
            self.st.assume_all(g.sorts, extremal, "extremal", self.gl_cls(g))
        self.st.prov[(key, id(g))] = (w, g)
        return w

    def list_append(self, l, v):
        r = self.lrec(l)
        if r.conc is not None:
            self.wrote(("list", l.lid))
            r.conc.append(v)
            return
        if r.elem.name == "seqstr":
            return self.seq_write(l, simp_e(z3.Concat(self.seq_read(l), z3.Unit(self.coerce(v, STR).e))))
        cv = self.coerce(v, r.elem)
        c, n = self.list_fms(l)
        at = tuple(l.idx) + cv.cs
        self.st.fm["cnt:" + l.lid] = c.upd(AppendPt(at, len(l.idx)), Const((simp_e(c.read(at).e + 1),)))
        self.st.fm["len:" + l.lid] = n.upd(AppendLen(l.idx), Const((simp_e(n.read(l.idx).e + 1),)))
        self.reg_all(cv)

    def list_remove(self, l, v):
        r = self.lrec(l)
        if r.conc is not None and not any(isinstance(x, Seg) for x in r.conc):
            self.wrote(("list", l.lid))
            for i, x in enumerate(r.conc):
                if self.decide(self.eq(x, v)):
                    del r.conc[i]
                    return
            self.raise_(ValueError)
        self.listify(l)
        r = self.lrec(l)
        cv = self.coerce(v, r.elem)
        c, n = self.list_fms(l)
        at = tuple(l.idx) + cv.cs
        self.reg_all(cv)
        cur = c.read(at).e
        if not self.decide(cur > 0):
            self.raise_(ValueError)
        self.wrote(("fm", "cnt:" + l.lid))
        self.wrote(("fm", "len:" + l.lid))
        self.st.fm["cnt:" + l.lid] = c.put(at, (cur - 1,))
        self.st.fm["len:" + l.lid] = n.put(l.idx, (n.read(l.idx).e - 1,))

    def list_copy(self, v, order=None):
        """A new list with the contents of v."""
        c = self.conc_list(v)
        if c is not None:
            return self.new_list(c)
        if isinstance(v, ListV):
            r = self.lrec(v)
            if r.conc is not None:
                return self.new_list(list(r.conc), r.elem)
        g = self.list_gl(v) if isinstance(v, ListV) else v
        if isinstance(g, GenL) and g.ident is not None:
            lid = fresh_name("L")
            self.st.lists[lid] = ListRec(g.ident, None, 0, order)
            n = self.length(g)
            ne = z3.IntVal(n) if isinstance(n, int) else n.e
            self.st.fm["cnt:" + lid] = FieldMap("cnt:" + lid, g.sorts, INT, lambda a: [g.mult(a)])
            self.st.fm["len:" + lid] = FieldMap("len:" + lid, (), INT, lambda a: [ne])
            return ListV(lid)
        return self.new_list([Seg(g)])

    # ================================================================ dicts
    def new_dict(self, items=(), t=None):
        did = fresh_name("D")
        self.st.dicts[did] = DictRec(t, {k: (True, v) for k, v in items})
        return DictV(did)

    def drec(self, d):
        r = self.st.dicts.get(d.did)
        if r is None:
            t = self.field_type(d.did)
            if t is None or not is_dict(t):
                raise Unsupported("unknown dict " + d.did)
            r = DictRec(t, None, 1)
            self.st.dicts[d.did] = r
        return r

    def dict_fms(self, d, st=None):
        st = st or self.st
        r = st.dicts.get(d.did) or self.drec(d)
        idxsorts = tuple(x.sort() for x in d.idx)
        h = self.get_fm("has:" + d.did, idxsorts + r.t.key.sorts, BOOL, st, [z3.BoolVal(False)])
        if is_list(r.t.elem):
            g = None
            st.lists.setdefault("val:" + d.did, ListRec(r.t.elem.elem, None, len(d.idx) + len(r.t.key.sorts)))
        else:
            g = self.get_fm("get:" + d.did, idxsorts + r.t.key.sorts, r.t.elem, st)
        return h, g

    def dictify(self, d, kt=None, vt=None):
        r = self.drec(d)
        if r.conc is None:
            return r
        if r.t is not None:
            kt, vt = r.t.key, r.t.elem
        for k, (p, v) in r.conc.items():
            tk = self.type_of(k)
            kt = tk if kt is None else self.join_type(kt, tk)
            if isinstance(v, (ListV, DictV)):
                raise Unsupported("dict of containers")
            tv = self.type_of(v)
            vt = tv if vt is None else self.join_type(vt, tv)
        if kt is None or vt is None:
            raise Unsupported("type of dict")
        h = FieldMap("has:" + d.did, kt.sorts, BOOL, lambda a: [z3.BoolVal(False)])
        items = list(r.conc.items())
        for k, (p, v) in items:
            h = h.put(self.coerce(k, kt).cs, (zb(p),))
        self.st.fm["has:" + d.did] = h
        if is_list(vt):
            if items:
                raise Unsupported("dict of lists")
            lid = "val:" + d.did
            self.st.lists[lid] = ListRec(vt.elem, None, len(kt.sorts))
            self.st.fm["cnt:" + lid] = FieldMap("cnt:" + lid, kt.sorts + vt.elem.sorts, INT, lambda a: [z3.IntVal(0)])
            self.st.fm["len:" + lid] = FieldMap("len:" + lid, kt.sorts, INT, lambda a: [z3.IntVal(0)])
        else:
            g = FieldMap.uf("get:" + d.did, kt.sorts, vt)
            for k, (p, v) in items:
                g = g.put(self.coerce(k, kt).cs, self.coerce(v, vt).cs)
            self.st.fm["get:" + d.did] = g
        r.conc = None
        r.t = DictT(kt, vt)
        return r

    def conc_key(self, k):
        if is_native(k) and not isinstance(k, float):
            return True
        return False

    def dict_has(self, d, k):
        r = self.drec(d)
        self.didread(("dict", d.did))
        k = self.unopt(k)
        if r.conc is not None:
            if self.conc_key(k):
                return r.conc[k][0] if k in r.conc else False
            if isinstance(k, SV):
                return Or(*[And(p, self.eq(k, kk)) for kk, (p, v) in r.conc.items()])
            raise Unsupported("dict key %r" % (k,))
        h, g = self.dict_fms(d)
        ck = self.dkey(r.t.key, k)
        if ck is None:
            return False
        self.reg_all(ck)
        self.didread(("fm", "has:" + d.did, tuple(d.idx) + ck.cs))
        return h.read(tuple(d.idx) + ck.cs).e

    def dkey(self, kt, k):
        """The key as the dict's key type, None if it cannot be a key there."""
        if isinstance(k, SV) and k.t == JV and kt == STR:
            if self.decide(J.is_jstr(k.e)):
                return SV(STR, [J.js(k.e)])
            return None
        try:
            tk = self.type_of(k)
        except Unsupported:
            raise Unsupported("dict key %r" % (k,))
        if tk != kt and kt != JV:
            if is_ref(tk) and is_ref(kt):
                return None
            if {tk, kt} <= {INT, REAL, BOOL}:
                return self.coerce(k, kt)
            return None
        return self.coerce(k, kt)

    def dict_getitem(self, d, k):
        p = self.dict_has(d, k)
        if not self.decide(p):
            self.raise_(KeyError, k)
        return self.dict_val(d, k)

    def dict_val(self, d, k):
        """The value at k, which is there."""
        r = self.drec(d)
        k = self.unopt(k)
        if r.conc is not None:
            if self.conc_key(k):
                return r.conc[k][1]
            for kk, (p, v) in r.conc.items():
                if self.decide(And(p, self.eq(k, kk))):
                    return v
            raise Infeasible()
        ck = self.dkey(r.t.key, k)
        if is_list(r.t.elem):
            self.dict_fms(d)
            return ListV("val:" + d.did, tuple(d.idx) + ck.cs, epoch=r.epoch)
        h, g = self.dict_fms(d)
        self.didread(("fm", "get:" + d.did, tuple(d.idx) + ck.cs))
        v = norm(g.read(tuple(d.idx) + ck.cs))
        return self.reg(v)

    def dict_set(self, d, k, v):
        r = self.drec(d)
        k = self.unopt(k)
        if isinstance(v, SV) and is_opt(v.t) and r.t is None and not self.feasible(zb(Not(v.cs[0]))):
            v = norm(SV(v.t.elem, v.cs[1:]))
        if r.conc is not None and r.t is None and self.conc_key(k):
            self.wrote(("dict", d.did))
            r.conc[k] = (True, v)
            return
        if r.conc is not None:
            if r.t is None:
                vt = None if isinstance(v, ListV) else self.type_of(v)
                if isinstance(v, ListV):
                    el = self.lrec(v).elem
                    if el is None:
                        raise Unsupported("element type of list in dict")
                    vt = ListT(el)
                kt = self.type_of(k)
                self.dictify(d, kt, vt)
            else:
                self.dictify(d)
            r = self.drec(d)
        ck = self.dkey(r.t.key, k)
        if ck is None:
            raise Unsupported("key of another type set in dict")
        h, g = self.dict_fms(d)
        at = tuple(d.idx) + ck.cs
        self.wrote(("fm", "has:" + d.did))
        self.st.fm["has:" + d.did] = h.put(at, (z3.BoolVal(True),))
        self.reg_all(ck)
        if is_list(r.t.elem):
            self.set_list(ListV("val:" + d.did, at), v)
            r.epoch += 1
        else:
            cv = self.coerce(v, r.t.elem)
            self.wrote(("fm", "get:" + d.did))
            self.st.fm["get:" + d.did] = g.put(at, cv.cs)

    def set_list(self, l, v):
        """Contents of the owned list l become those of the temporary v."""
        if not isinstance(v, (ListV, GenL)):
            raise Unsupported("list field set to %r" % (v,))
        c, n = self.list_fms(l)
        el = self.lrec(l).elem
        idx = tuple(l.idx)
        k = len(idx)
        cl = self.conc_list(v) if isinstance(v, ListV) else None
        self.wrote(("fm", "cnt:" + l.lid))
        self.wrote(("fm", "len:" + l.lid))
        if cl is not None:
            items = [self.coerce(x, el) for x in cl]

            def val(a):
                t = z3.IntVal(0)
                for it in items:
                    t = t + Ite(And(*[term_eq(p, q) for p, q in zip(a[k:], it.cs)]), z3.IntVal(1), z3.IntVal(0))
                return (t,)
            ln = z3.IntVal(len(items))
        else:
            gl = self.list_gl(v)
            if gl.ident != el:
                raise Unsupported("list field of computed values")

            def val(a):
                return (gl.mult(tuple(a[k:])),)
            ln = self.length(gl)
            ln = z3.IntVal(ln) if isinstance(ln, int) else ln.e
        self.st.fm["cnt:" + l.lid] = c.upd(lambda a: And(*[term_eq(p, q) for p, q in zip(a[:k], idx)]), val)
        self.st.fm["len:" + l.lid] = n.put(idx, (ln,))

    def dict_del(self, d, k):
        r = self.drec(d)
        p = self.dict_has(d, k)
        if not self.decide(p):
            self.raise_(KeyError, k)
        if r.conc is not None and self.conc_key(k):
            self.wrote(("dict", d.did))
            del r.conc[k]
            return
        if r.conc is not None:
            self.dictify(d)
        h, g = self.dict_fms(d)
        ck = self.dkey(r.t.key, k)
        self.wrote(("fm", "has:" + d.did))
        self.st.fm["has:" + d.did] = h.put(tuple(d.idx) + ck.cs, (z3.BoolVal(False),))

    def dict_keys_gl(self, d, what="keys"):
        r = self.drec(d)
        if r.conc is not None:
            if r.t is None and not r.conc:
                return GenL((S,), lambda xs: z3.IntVal(0), lambda xs: None)
            self.dictify(d)
            r = self.drec(d)
        h, g = self.dict_fms(d)
        self.didread(("fm", "has:" + d.did, ()))
        idx = tuple(d.idx)
        kt, vt = r.t.key, r.t.elem
        keyf = getattr(r.t, "keyfield", None)
        if what == "values" and keyf and is_ref(vt):
            # values are identified by a field holding their key
            fm = self.get_fm(vt.cls + "." + keyf)

            def mult(xs):
                nm = fm.read(xs).cs
                return z3.If(z3.And(h.read(idx + nm).e, g.read(idx + nm).cs[0] == xs[0]), z3.IntVal(1), z3.IntVal(0))
            return GenL(vt.sorts, mult, lambda xs: norm(SV(vt, xs)), ident=vt, distinct=True)

        def mult(xs):
            return z3.If(h.read(idx + tuple(xs)).e, z3.IntVal(1), z3.IntVal(0))
        if what == "keys":
            return GenL(kt.sorts, mult, lambda xs: norm(SV(kt, xs)), ident=kt, distinct=True)
        if is_list(vt):
            self.dict_fms(d)

            def val(xs):
                return ListV("val:" + d.did, idx + tuple(xs))
        else:
            def val(xs):
                return norm(g.read(idx + tuple(xs)))
        if what == "values":
            return GenL(kt.sorts, mult, val, distinct=True)
        return GenL(kt.sorts, mult, lambda xs: (norm(SV(kt, xs)), val(xs)), distinct=True)

    # ================================================================ json values
    def jdict_has(self, e, k):
        """k in e for a dict json value e"""
        kk = self.to_json(k)
        self.add_term(kk)
        self.didread(("fm", "J.has", (J.jdid(e), kk)))
        return self.jhas().read((simp_e(J.jdid(e)), kk)).e

    def jdict_val(self, e, k):
        kk = self.to_json(k)
        self.didread(("fm", "J.get", (J.jdid(e), kk)))
        v = SV(JV, [self.jget().read((simp_e(J.jdid(e)), kk)).e])
        self.st.prov[v.e.get_id()] = ("J.get", (J.jdid(e), kk), v.e)
        return self.reg(v)

    def jdict_set(self, e, k, v):
        kk = self.to_json(k)
        jv = self.to_json(v)
        jid = simp_e(J.jdid(e))
        self.wrote(("fm", "J.has"))
        self.wrote(("fm", "J.get"))
        self.st.fm["J.has"] = self.jhas().put((jid, kk), (z3.BoolVal(True),))
        self.st.fm["J.get"] = self.jget().put((jid, kk), (jv,))

    def json_items_gl(self, e, what):
        """Keys/values/items of a dict json value."""
        jid = simp_e(J.jdid(e))
        has, get = self.jhas(), self.jget()
        self.didread(("fm", "J.has", ()))
        # all keys strings?
        q = fconst(J, "k")
        self_st = self.st.clone()
        self_st.add_term(q)
        allstr = self.prover.prove(self_st.facts, z3.Implies(has.read((jid, q)).e, J.is_jstr(q))) == "proved"
        if allstr:
            srt = (S,)

            def key(xs):
                return J.jstr(xs[0])
        else:
            srt = (J,)

            def key(xs):
                return xs[0]

        def mult(xs):
            return z3.If(has.read((jid, key(xs))).e, z3.IntVal(1), z3.IntVal(0))

        def kv(xs):
            return norm(SV(STR, xs)) if allstr else SV(JV, xs)

        def vv(xs):
            self.add_term(key(xs))
            return SV(JV, [get.read((jid, key(xs))).e])
        n = self.jdlen(jid)
        self.st.assume(n >= 0)
        if what == "keys":
            return GenL(srt, mult, kv, ident=STR if allstr else JV, distinct=True)
        if what == "values":
            return GenL(srt, mult, vv, distinct=True)
        return GenL(srt, mult, lambda xs: (kv(xs), vv(xs)), distinct=True)


def norm(v):
    """Concrete where it obviously is."""
    if not isinstance(v, SV):
        return v
    t = v.t
    if t == NONE:
        return None
    if is_opt(t):
        p = v.cs[0]
        if not (z3.is_const(p) and p.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            p = z3.simplify(p)
        if z3.is_true(p):
            return norm(SV(t.elem, v.cs[1:]))
        if z3.is_false(p):
            return None
        return v
    if t == BOOL:
        if z3.is_true(v.e):
            return True
        if z3.is_false(v.e):
            return False
    elif t == INT and z3.is_int_value(v.e):
        return v.e.as_long()
    elif t == STR and z3.is_string_value(v.e):
        return z3_str(v.e)
    return v


def z3_str(e):
    s = e.as_string()
    out, i = [], 0
    while i < len(s):
        if s.startswith("\\u{", i):
            j = s.index("}", i)
            out.append(chr(int(s[i + 3:j], 16)))
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def simp_e(e):
    return z3.simplify(e)


def And2(a, b):
    return zb(And(a, b))


def dummy(s):
    if s == Ref:
        return Ref.Old(z3.IntVal(0))
    if s == J:
        return J.jnone
    if s == B:
        return z3.BoolVal(False)
    if s == I:
        return z3.IntVal(0)
    if s == R:
        return z3.RealVal(0)
    if s == S:
        return z3.StringVal("")
    raise Unsupported("dummy")


def realval(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return z3.RealVal(v)
    if v != v or v in (float("inf"), float("-inf")):
        raise Unsupported("non-finite float")
    from fractions import Fraction
    f = Fraction(v)
    return z3.Q(f.numerator, f.denominator)


def fixed_fm(fam, argsorts, t, old_only=None):
    """The initial value of a field: uninterpreted, by name."""
    cs = []
    for i, s in enumerate(t.sorts):
        if s == Ref:
            f = z3.Function("%s.%d" % (fam, i), *argsorts, I)
            cs.append(lambda a, f=f: Ref.Old(f(*a) if a else f()))
        else:
            f = z3.Function("%s.%d" % (fam, i), *argsorts, s)
            if fam.startswith(("cnt:", "len:")):
                cs.append(lambda a, f=f: nonneg(f(*a) if a else f()))
                continue
            cs.append(lambda a, f=f: f(*a) if a else f())

    def base(args):
        v = [c(args) for c in cs]
        if old_only is not None:
            g = And(*[simp(Ref.is_Old(a)) for a in args if a.sort() == Ref])
            v = [Ite(g, x, d) for x, d in zip(v, old_only)]
        return v
    return FieldMap(fam, argsorts, t, base)
