"""Statements, expressions and calls of the verified subset of Python."""
import ast
import builtins
import importlib
import string

import z3

from .core import *
from .core import And, Or, Not, Implies, Iff, Ite, term_eq, simp, zb
from .exec import *
from .exec import Exec, norm, realval, dummy, simp_e, is_native, GenL, Seg, IterV

_locals_cache = {}


def assigned_names(fn):
    """Names local to a function."""
    r = _locals_cache.get(id(fn))
    if r is not None:
        return r[0]
    out = set()
    if isinstance(fn, (ast.FunctionDef, ast.Lambda)):
        a = fn.args
        for x in a.args + a.kwonlyargs + a.posonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            out.add(x.arg)
        glob = set()

        def walk(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.Global) or isinstance(c, ast.Nonlocal):
                    glob.update(c.names)
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    out.add(c.name)
                    continue
                if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    continue
                if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                    out.add(c.id)
                if isinstance(c, ast.ExceptHandler) and c.name:
                    out.add(c.name)
                walk(c)
        if isinstance(fn, ast.FunctionDef):
            for s in fn.body:
                walk(ast.Module(body=[s], type_ignores=[]))
        out -= glob
    _locals_cache[id(fn)] = (out, fn)
    return out


LOG_METHODS = {"debug", "info", "warning", "error", "exception", "critical", "log", "warn"}


class Interp(Exec):
    # ================================================================ names
    def push_frame(self, mod, closure, cls, names):
        fid = fresh_name("f")
        self.st.locals[fid] = {"__frame__": (mod, closure, cls, names)}
        return fid

    def cur_mod(self):
        return self.st.locals[self.fid]["__frame__"][0]

    def load_name(self, name):
        fid = self.fid
        while fid is not None:
            L = self.st.locals[fid]
            if name in L:
                v = L[name]
                if isinstance(v, Poison):
                    raise Unsupported("use of %s: %s" % (name, v.why))
                return v
            if name in L["__frame__"][3]:
                self.raise_(UnboundLocalError, name)
            fid = L["__frame__"][1]
        return self.global_name(self.cur_mod(), name)

    def avail(self, name):
        return z3.Const("avail:" + name, B)

    def global_name(self, mod, name):
        g = self.opts.get("globals", {}).get(mod + "." + name)
        if g is not None:
            return g(self)
        e = self.prog.lookup(mod, name)
        if e is not None:
            return self.resolve(mod, name, e)
        if name in BUILTIN_TYPES:
            return BUILTIN_TYPES[name]
        if name in BUILTIN_FUNCS:
            return ExtV("builtins." + name)
        if name == "__name__":
            return mod
        self.raise_(NameError, name)

    def resolve(self, mod, name, e):
        if isinstance(e, (FuncV, ClassV)):
            return e
        if isinstance(e, ModV):
            if e.avail == "opt":
                if not self.decide(self.avail(e.name)):
                    return ExcV(ImportError, ())
            return e
        if isinstance(e, tuple):
            if e[0] == "from":
                _, base, nm, cond = e
                if cond == "opt" and not self.opt_program(base, nm) and not self.decide(self.avail(base)):
                    return ExcV(ImportError, ())
                if cond == "opt" and self.opt_program(base, nm) and not self.decide(self.avail(base + "." + nm)):
                    return ExcV(ImportError, ())
                if self.prog.is_mod(base + "." + nm):
                    return ModV(base + "." + nm)
                if self.prog.is_mod(base):
                    return self.global_name(base, nm)
                return self.load_attr(ModV(base), nm)
            if e[0] == "expr":
                fid, self.fid = self.fid, self.push_frame(mod, None, None, ())
                try:
                    return self.ev(e[1])
                finally:
                    self.fid = fid
            raise Unsupported("conditionally defined global " + name)
        raise Unsupported("global " + name)

    def opt_program(self, base, nm):
        return self.prog.is_mod(base) or self.prog.is_mod(base + "." + nm)

    def store_name(self, name, v):
        self.st.locals[self.fid][name] = v

    # ================================================================ expressions
    def ev(self, n):
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(n).__name__)
        return m(n)

    def ev_Constant(self, n):
        return n.value

    def ev_Name(self, n):
        return self.load_name(n.id)

    def ev_Tuple(self, n):
        return tuple(self.ev_elts(n.elts))

    def ev_elts(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                c = self.conc_list(self.ev(e.value))
                if c is None:
                    raise Unsupported("starred symbolic list")
                out += c
            else:
                out.append(self.ev(e))
        return out

    def ev_List(self, n):
        return self.new_list(self.ev_elts(n.elts))

    def ev_Set(self, n):
        return self.new_list(self.ev_elts(n.elts))

    def ev_Dict(self, n):
        d = self.new_dict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                raise Unsupported("dict unpacking")
            self.dict_set(d, self.ev(k), self.ev(v))
        return d

    def ev_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value)
                if v.format_spec is not None:
                    parts.append(self.fresh_str())
                else:
                    parts.append(self.to_str(x, rep=v.conversion == 114))
        return self.concat(parts)

    def ev_Lambda(self, n):
        return FuncV(n, self.cur_mod(), closure=self.fid, qual="<lambda>")

    def ev_IfExp(self, n):
        c = self.truth(self.ev(n.test))
        if self.decide(c):
            return self.ev(n.body)
        return self.ev(n.orelse)

    def ev_BoolOp(self, n):
        # a pure boolean combination stays one formula where possible
        isand = isinstance(n.op, ast.And)
        v = self.ev(n.values[0])
        for x in n.values[1:]:
            t = self.truth(v)
            if self.is_pure(x):
                y = self.try_pure(x, t if isand else Not(t))
                if y is not None and self.boolish(v) and self.boolish(y):
                    a, b = self.truth(v), self.truth(y)
                    v = self.mkbool(And(a, b) if isand else Or(a, b))
                    continue
            d = self.decide(t)
            if d != isand:
                return v
            v = self.ev(x)
        return v

    def boolish(self, v):
        return isinstance(v, bool) or isinstance(v, SV) and v.t == BOOL

    def mkbool(self, e):
        return e if isinstance(e, bool) else norm(SV(BOOL, [e]))

    PURE = (ast.Compare, ast.Name, ast.Attribute, ast.Constant, ast.BoolOp, ast.UnaryOp, ast.And, ast.Or, ast.Not,
            ast.Load, ast.cmpop, ast.BinOp, ast.operator, ast.USub, ast.Tuple)

    def is_pure(self, n):
        return all(isinstance(x, self.PURE) for x in ast.walk(n))

    def try_pure(self, n, under):
        """The value of a pure expression without a fork or exception."""
        if not self.feasible(zb(under)):
            return None
        st = self.st
        save = (self.script, self.pos, self.stack)
        mark = name_mark()
        self.st = st.clone()
        self.st.assume(under)
        self.script, self.pos, self.stack = [], 0, []
        base = len(self.st.facts)
        try:
            v = self.ev(n)
            ok = not self.stack and len(self.st.facts) == base
        except (PyExc, Infeasible, Unsupported):
            ok = False
            v = None
        finally:
            self.st = st
            self.script, self.pos, self.stack = save
        if not ok:
            name_reset(mark)
            return None
        return v

    def ev_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(n.op, ast.Not):
            return self.mkbool(Not(self.truth(v)))
        if isinstance(n.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            v = self.unopt(v)
            if isinstance(v, SV) and v.t in (INT, REAL, TD):
                return SV(v.t, [-v.e])
        if isinstance(n.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def ev_Compare(self, n):
        left = self.ev(n.left)
        res = True
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r)
            c = self.compare(op, left, right)
            res = And(res, c)
            if len(n.ops) > 1 and res is False:
                return False
            left = right
        return self.mkbool(res)

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return Not(self.eq(a, b))
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return Not(self.is_(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return Not(self.contains(b, a))
        sym = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)]
        return self.cmp_vals(sym, a, b)

    def is_(self, a, b):
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            if a is None or b is None:
                x = b if a is None else a
                if isinstance(x, SV) and x.t == JV:
                    return simp(J.is_jnone(x.e))
                if isinstance(x, SV) and is_opt(x.t):
                    return Not(x.cs[0])
                return x is None
            return self.eq(a, b)
        if isinstance(a, SV) and isinstance(b, SV) and (is_ref(a.t) or is_opt(a.t)):
            return self.eq(a, b)
        if isinstance(a, ObjRef) or isinstance(b, ObjRef):
            return a == b
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            return self.type_eq(a, b)
        if isinstance(a, (type, ClassV)):
            return a == b
        if isinstance(a, (ListV, DictV)) and isinstance(b, type(a)):
            return (a.lid, len(a.idx)) == (b.lid, len(b.idx)) if isinstance(a, ListV) else a.did == b.did
        raise Unsupported("is on %r" % (a,))

    def cmp_vals(self, op, a, b):
        def rel(x, y):
            return {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y}[op]()
        if is_native(a) and is_native(b) and not isinstance(a, type):
            try:
                return rel(a, b)
            except TypeError:
                self.raise_(TypeError)
        a, b = self.unopt(a), self.unopt(b)
        if a is None or b is None:
            self.raise_(TypeError, "comparison with None")
        if isinstance(a, tuple) and isinstance(b, tuple):
            # lexicographic
            if len(a) != len(b):
                raise Unsupported("tuple comparison")
            r = op in ("<=", ">=")
            for x, y in reversed(list(zip(a, b))):
                strict = self.cmp_vals(op[0], x, y)
                r = Or(strict, And(self.eq(x, y), r))
            return r
        a, b = self.num_json(a), self.num_json(b)
        ta, tb = self.type_of(a), self.type_of(b)
        num = {INT, REAL, BOOL}
        if ta in num and tb in num:
            t = self.join_type(ta, tb)
            t = INT if t == BOOL else t
            return simp(rel(self.coerce(a, t).e, self.coerce(b, t).e))
        if {ta, tb} == {DT, NDT}:
            self.raise_(TypeError, "naive and aware")
        if ta == tb and ta in (DT, NDT, TD):
            return simp(rel(a.cs[0], b.cs[0]))
        if ta == tb == STR:
            x, y = self.coerce(a, STR).e, self.coerce(b, STR).e
            if op in (">", ">="):
                x, y = y, x
            return (x < y) if op in ("<", ">") else (x <= y)
        if ta == tb and is_ref(ta):
            f = None
            for m in self.prog.mods:
                c = self.prog.names[m].get(ta.cls)
                if isinstance(c, ClassV):
                    f = self.prog.method(c, "__lt__")
            if f is not None:
                x, y = (a, b) if op in ("<",) else (b, a)
                if op in ("<", ">"):
                    return self.truth(self.call_func(f, [x, y], {}))
        if JV in (ta, tb):
            raise Unsupported("comparison of json values")
        self.raise_(TypeError, "comparison")

    def num_json(self, v):
        if isinstance(v, SV) and v.t == JV:
            if self.decide(J.is_jint(v.e)):
                return norm(SV(INT, [simp_e(J.ji(v.e))]))
            if self.decide(J.is_jreal(v.e)):
                return SV(REAL, [simp_e(J.jr(v.e))])
            if self.decide(J.is_jstr(v.e)):
                return norm(SV(STR, [simp_e(J.js(v.e))]))
            if self.decide(J.is_jbool(v.e)):
                return SV(BOOL, [simp_e(J.jb(v.e))])
            if self.decide(J.is_jnone(v.e)):
                return None
        return v

    def contains(self, coll, v):
        coll = self.unopt(coll)
        if isinstance(coll, str) and isinstance(v, str):
            return v in coll
        if isinstance(coll, str) or isinstance(coll, SV) and coll.t == STR:
            v = self.unopt(v)
            if v is None:
                self.raise_(TypeError)
            return z3.Contains(self.coerce(coll, STR).e, self.coerce(v, STR).e)
        if isinstance(coll, SV) and coll.t == JV:
            e = coll.e
            if self.decide(J.is_jdict(e)):
                return self.jdict_has(e, v)
            if self.decide(J.is_jlist(e)):
                return self.contains_gl(self.json_list_gl(e), v)
            if self.decide(J.is_jstr(e)):
                return z3.Contains(J.js(e), self.coerce(v, STR).e)
            self.raise_(TypeError, "not iterable")
        if isinstance(coll, DictV):
            return self.dict_has(coll, v)
        c = self.conc_list(coll) if isinstance(coll, (tuple, ListV)) else None
        if c is not None:
            return Or(*[self.eq(v, x) for x in c])
        if isinstance(coll, ListV):
            if getattr(self.lrec(coll).elem, "name", "") == "seqstr":
                raise Unsupported("in on sequence")
            rec = self.lrec(coll)
            if rec.conc is not None:
                return Or(*[self.contains_gl(x.gl, v) if isinstance(x, Seg) else self.eq(v, x) for x in rec.conc])
            return self.contains_gl(self.list_gl(coll), v)
        if isinstance(coll, GenL):
            return self.contains_gl(coll, v)
        if coll is None or isinstance(coll, (int, float)):
            self.raise_(TypeError, "not iterable")
        raise Unsupported("in on %r" % (coll,))

    def json_list_gl(self, e):
        jid = simp_e(J.jlid(e))
        at = self.get_fm("J.at", (I, I), JV)
        n = self.jlen(jid)
        self.st.assume(n >= 0)
        return GenL((I,), lambda xs: z3.If(z3.And(xs[0] >= 0, xs[0] < n), z3.IntVal(1), z3.IntVal(0)),
                    lambda xs: SV(JV, [at.read((jid, xs[0])).e]), ln=n, distinct=True)

    # ---- arithmetic
    def ev_BinOp(self, n):
        return self.binop(n.op, self.ev(n.left), self.ev(n.right))

    def binop(self, op, a, b):
        if is_native(a) and is_native(b) and not isinstance(op, ast.Pow):
            import operator
            f = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
                 ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.BitAnd: operator.and_,
                 ast.BitOr: operator.or_, ast.RShift: operator.rshift, ast.LShift: operator.lshift}.get(type(op))
            if f is not None:
                try:
                    return f(a, b)
                except Exception as e:
                    self.raise_(type(e))
        a, b = self.num_json(self.unopt(a)), self.num_json(self.unopt(b))
        if a is None or b is None:
            self.raise_(TypeError, "operand is None")
        if isinstance(op, ast.Add):
            ca = self.conc_list(a) if isinstance(a, (tuple, ListV)) else None
            cb = self.conc_list(b) if isinstance(b, (tuple, ListV)) else None
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if ca is not None and cb is not None:
                return self.new_list(ca + cb)
            if isinstance(a, (ListV, GenL)) and isinstance(b, (ListV, GenL)):
                return self.list_concat(a, b)
        ta, tb = self.type_of(a), self.type_of(b)
        num = {INT, REAL, BOOL}
        if ta in num and tb in num:
            return self.arith(op, a, b, ta, tb)
        if isinstance(op, ast.Add) and ta == tb == STR:
            return self.concat([a, b])
        if isinstance(op, ast.Mod) and ta == STR:
            return self.fresh_str()
        if isinstance(op, (ast.Add, ast.Sub)):
            sg = 1 if isinstance(op, ast.Add) else -1
            if ta in (DT, NDT) and tb == TD:
                return SV(ta, [simp_e(a.cs[0] + sg * b.e if sg > 0 else a.cs[0] - b.e)] + list(a.cs[1:]))
            if ta == TD and tb in (DT, NDT) and sg > 0:
                return SV(tb, [simp_e(b.cs[0] + a.e)] + list(b.cs[1:]))
            if ta == tb == TD:
                return SV(TD, [simp_e(a.e + b.e if sg > 0 else a.e - b.e)])
            if ta == tb and ta in (DT, NDT) and sg < 0:
                return SV(TD, [simp_e(a.cs[0] - b.cs[0])])
        if isinstance(op, ast.Mult) and TD in (ta, tb) and ({ta, tb} - {TD}) <= num:
            x, y = (a, b) if ta == TD else (b, a)
            return SV(TD, [x.e * self.coerce(y, REAL).e])
        if isinstance(op, ast.Div) and ta == TD and tb == TD:
            if self.decide(b.e == 0):
                self.raise_(ZeroDivisionError)
            return SV(REAL, [a.e / b.e])
        if isinstance(op, ast.Div) and ta == TD and tb in num:
            y = self.coerce(b, REAL).e
            if self.decide(y == 0):
                self.raise_(ZeroDivisionError)
            return SV(TD, [a.e / y])
        if isinstance(op, ast.Mult) and STR in (ta, tb):
            return self.fresh_str()
        self.raise_(TypeError, "operands")

    def arith(self, op, a, b, ta, tb):
        t = self.join_type(ta, tb)
        if t == BOOL:
            t = INT
        x, y = self.coerce(a, t).e, self.coerce(b, t).e
        if isinstance(op, ast.Add):
            return norm(SV(t, [simp_e(x + y)]))
        if isinstance(op, ast.Sub):
            return norm(SV(t, [simp_e(x - y)]))
        if isinstance(op, ast.Mult):
            return norm(SV(t, [simp_e(x * y)]))
        if isinstance(op, (ast.Div, ast.FloorDiv, ast.Mod)):
            if self.decide(y == 0):
                self.raise_(ZeroDivisionError)
            if isinstance(op, ast.Div):
                x, y = self.coerce(a, REAL).e, self.coerce(b, REAL).e
                return SV(REAL, [simp_e(x / y)])
            if t == INT:
                pos = self.decide(y > 0)
                if pos:
                    q, r = x / y, x % y
                else:
                    q, r = (-x) / (-y), -((-x) % (-y))
                return norm(SV(INT, [simp_e(q if isinstance(op, ast.FloorDiv) else r)]))
            fl = z3.ToReal(z3.ToInt(x / y))
            return SV(REAL, [simp_e(fl if isinstance(op, ast.FloorDiv) else x - y * fl)])
        if isinstance(op, ast.Pow):
            if is_native(a) and is_native(b) and isinstance(b, int) and b >= 0:
                return a ** b
            if isinstance(b, int) and 0 <= b <= 4:
                r = z3.RealVal(1) if t == REAL else z3.IntVal(1)
                for _ in range(b):
                    r = r * x
                return SV(t, [r])
            f = z3.Function("pow", R, R, R)
            x, y = self.coerce(a, REAL).e, self.coerce(b, REAL).e
            self.used_externs.add("** (uninterpreted, monotone in the exponent for a base above 1)")
            r = f(x, y)
            self.st.assume(z3.Implies(x > 0, r > 0))
            return SV(REAL, [r])
        if t == INT and isinstance(op, ast.BitAnd):
            for p, q in ((a, b), (b, a)):
                if isinstance(q, int) and q >= 0 and (q & (q + 1)) == 0:
                    return norm(SV(INT, [simp_e(self.coerce(p, INT).e % (q + 1))]))
            for p, q in ((a, b), (b, a)):
                if isinstance(q, int) and q > 0 and (q & (q - 1)) == 0:
                    pe = self.coerce(p, INT).e
                    return norm(SV(INT, [simp_e(((pe / q) % 2) * q)]))
        if t == INT and isinstance(op, ast.RShift):
            if isinstance(b, int) and b >= 0:
                return norm(SV(INT, [simp_e(x / (2 ** b))]))
            if not self.decide(y >= 0):
                self.raise_(ValueError)
            r = z3.Function("shr", I, I, I)(x, y)
            self.st.assume(z3.Implies(x >= 0, z3.And(r >= 0, r <= x)))
            return SV(INT, [r])
        if t == INT and isinstance(op, ast.LShift) and isinstance(b, int) and b >= 0:
            return norm(SV(INT, [simp_e(x * (2 ** b))]))
        raise Unsupported("arithmetic " + type(op).__name__)

    def list_concat(self, a, b):
        def segs(v):
            if isinstance(v, ListV):
                r = self.lrec(v)
                if r.conc is not None:
                    return list(r.conc)
                return [Seg(self.list_gl(v))]
            return [Seg(v)]
        return self.new_list(segs(a) + segs(b))

    # ---- strings
    def fresh_str(self):
        return SV(STR, [fconst(S, "s")])

    def concat(self, parts):
        out = []
        for p in parts:
            if isinstance(p, Opaque):
                return self.fresh_str()
            if isinstance(p, str):
                if p == "":
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        if not out:
            return ""
        if len(out) == 1:
            return out[0]
        es = [z3.StringVal(p) if isinstance(p, str) else p.e for p in out]
        return SV(STR, [z3.Concat(*es)])

    def to_str(self, v, rep=False):
        """str(v) (or repr)"""
        if is_native(v) and not isinstance(v, type):
            return repr(v) if rep else str(v)
        if isinstance(v, SV):
            if v.t == STR:
                if rep:
                    return SV(STR, [z3.Function("repr.str", S, S)(v.e)])
                return v
            if is_opt(v.t):
                x = self.unopt(v)
                return self.to_str(x, rep)
            if v.t == JV and not rep:
                if self.decide(J.is_jstr(v.e)):
                    return SV(STR, [simp_e(J.js(v.e))])
                return SV(STR, [z3.Function("str.json", J, S)(v.e)])
            if v.t in (INT, REAL, BOOL, TD) and not rep:
                f = z3.Function("str." + v.t.name, v.t.sorts[0], S)
                return SV(STR, [f(v.e)])
            if is_ref(v.t):
                return self.fresh_str()
        return self.fresh_str()

    def do_format(self, fmt, args, kw):
        parts = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(fmt):
            parts.append(lit)
            if field is None:
                continue
            if field == "":
                if auto >= len(args):
                    self.raise_(IndexError)
                v = args[auto]
                auto += 1
            elif field.isdigit():
                if int(field) >= len(args):
                    self.raise_(IndexError)
                v = args[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                parts.append(self.fresh_str())
                continue
            if spec:
                if is_native(v) and "{" not in spec:
                    parts.append(format(v, spec))
                else:
                    parts.append(self.fresh_str())
            else:
                parts.append(self.to_str(v, rep=conv == "r"))
        return self.concat(parts)

    # ---- attributes
    def ev_Attribute(self, n):
        return self.load_attr(self.ev(n.value), n.attr)

    def load_attr(self, o, a):
        if isinstance(o, SV) and is_opt(o.t):
            o = self.unopt(o)
        if o is None:
            self.raise_(AttributeError, a)
        if isinstance(o, Opaque):
            raise Unsupported("attribute %s of %r" % (a, o))
        if isinstance(o, ObjRef):
            rec = self.st.objs[o.addr]
            if a in rec.fields:
                v = rec.fields[a]
                if isinstance(v, Poison):
                    raise Unsupported("use of field %s: %s" % (a, v.why))
                return v
            if isinstance(rec.cls, ClassV):
                return self.class_member(rec.cls, a, o)
            return ExtV(str(rec.cls) + "." + a, o)
        if isinstance(o, SV) and is_ref(o.t):
            t = self.schema.get(o.t.cls, {}).get(a)
            if t is not None:
                return self.read_field(o, a, t)
            c = self.find_class(o.t.cls)
            if c is not None:
                return self.class_member(c, a, o)
            return ExtV(o.t.cls + "." + a, o)
        if isinstance(o, ClassV):
            f = self.prog.method(o, a)
            if f is not None:
                return f
            e = self.prog.class_attr(o, a)
            if e is not None:
                return self.ev(e)
            nb = self.prog.native_base(o)
            if nb:
                return ExtV(nb + "." + a)
            self.raise_(AttributeError, a)
        if isinstance(o, ModV):
            if self.prog.is_mod(o.name):
                if self.prog.is_mod(o.name + "." + a):
                    return ModV(o.name + "." + a)
                return self.global_name(o.name, a)
            return self.ext_attr(o.name, a)
        if isinstance(o, ExtV):
            if o.name == "super":
                return self.super_attr(o, a)
            return self.ext_attr(o.name, a, o.recv)
        if isinstance(o, ExcV):
            if a in o.fields:
                return o.fields[a]
            if a == "args":
                return tuple(o.args)
            if a == "errno":
                return fresh(INT, "errno")
            return ExtV("exc." + a, o)
        if isinstance(o, SV):
            if o.t == DT and a == "tzinfo":
                return SV(TZ, [o.cs[1]])
            if o.t == NDT and a == "tzinfo":
                return None
            if o.t == TD and a in ("days", "seconds", "microseconds"):
                raise Unsupported("timedelta." + a)
            if is_opaque(o.t):
                h = self.externs.get("attr:" + o.t.cls + "." + a)
                if h:
                    return h(self, o)
                return ExtV(o.t.cls + "." + a, o)
            return ExtV({"str": "str", "dt": "dt", "ndt": "ndt", "td": "td", "json": "json", "int": "int",
                         "real": "float", "tz": "tz", "bool": "bool"}[o.t.name] + "." + a, o)
        if isinstance(o, str):
            return ExtV("str." + a, o)
        if isinstance(o, bytes):
            return ExtV("bytes." + a, o)
        if isinstance(o, (ListV, GenL)):
            return ExtV("list." + a, o)
        if isinstance(o, DictV):
            return ExtV("dict." + a, o)
        if isinstance(o, IterV):
            return ExtV("iter." + a, o)
        if isinstance(o, tuple):
            return ExtV("tuple." + a, o)
        if isinstance(o, (int, float)):
            return ExtV(type(o).__name__ + "." + a, o)
        if isinstance(o, type):
            if o is dict or o is str or o is list:
                return ExtV(o.__name__ + "." + a, None)
        if isinstance(o, FuncV) and a == "__name__":
            return o.node.name
        if isinstance(o, TypeOf) and a == "__name__":
            return self.fresh_str()
        raise Unsupported("attribute %s of %r" % (a, o))

    def find_class(self, name):
        for m in self.prog.mods:
            c = self.prog.names[m].get(name)
            if isinstance(c, ClassV):
                return c
        return None

    def class_member(self, cls, a, o):
        f = self.prog.method(cls, a)
        if f is not None:
            dec = getattr(f, "decorators", [])
            if "property" in dec:
                return self.call_func(f, [o], {})
            if "staticmethod" in dec:
                return f
            if "classmethod" in dec:
                return BoundV(cls, f)
            if dec:
                raise Unsupported("decorator " + dec[0])
            return BoundV(o, f)
        e = self.prog.class_attr(cls, a)
        if e is not None:
            fid, self.fid = self.fid, self.push_frame(cls.mod, None, None, ())
            try:
                return self.ev(e)
            finally:
                self.fid = fid
        if a == "__class__":
            return cls
        nb = self.prog.native_base(cls)
        if nb and nb != "object":
            h = self.externs.get("attr:" + nb + "." + a)
            if h:
                return h(self, o)
            return ExtV(nb + "." + a, o)
        if isinstance(o, ObjRef) and "*" in self.st.objs[o.addr].fields:
            raise Unsupported("field " + a)
        self.raise_(AttributeError, a)

    def super_attr(self, o, a):
        cls, obj = o.recv
        for b in self.prog.bases(cls):
            f = self.prog.method(b, a)
            if f is not None:
                return BoundV(obj, f)
        nb = self.prog.native_base(cls)
        return ExtV((nb or "object") + "." + a, obj)

    def read_field(self, o, a, t):
        fam = o.t.cls + "." + a
        if is_list(t):
            return ListV(fam, (o.cs[0],))
        if is_dict(t):
            return DictV(fam, (o.cs[0],))
        return self.fmread(fam, (o.cs[0],))

    def ext_attr(self, mod, a, recv=None):
        full = mod + "." + a
        h = self.externs.get("attr:" + full)
        if h is not None:
            return h(self, recv)
        if full in EXC_ALIASES:
            return EXC_ALIASES[full]
        root = mod.split(".")[0]
        if root in NATIVE_MODS and recv is None:
            try:
                m = importlib.import_module(mod)
                v = getattr(m, a)
            except (ImportError, AttributeError):
                v = None
            if isinstance(v, type(ast)):
                return ModV(full)
            if isinstance(v, type) and issubclass(v, BaseException):
                return v
            if isinstance(v, int) and not isinstance(v, bool):
                return int(v)
            if isinstance(v, str):
                return v
        return ExtV(full, recv)

    def ev_Subscript(self, n):
        o = self.unopt(self.ev(n.value))
        if isinstance(n.slice, ast.Slice):
            lo = self.ev(n.slice.lower) if n.slice.lower else None
            hi = self.ev(n.slice.upper) if n.slice.upper else None
            st = self.ev(n.slice.step) if n.slice.step else None
            return self.do_slice(o, lo, hi, st)
        k = self.ev(n.slice)
        return self.getitem(o, k)

    def getitem(self, o, k):
        if o is None:
            self.raise_(TypeError, "not subscriptable")
        if isinstance(o, DictV):
            return self.dict_getitem(o, k)
        if isinstance(o, ListV) and getattr(self.lrec(o).elem, "name", "") == "seqstr":
            return self.seq_get(o, k)
        if isinstance(o, (tuple, ListV)):
            c = self.conc_list(o)
            if c is not None and isinstance(k, int):
                if -len(c) <= k < len(c):
                    return c[k]
                self.raise_(IndexError)
            if c is not None and isinstance(k, SV) and k.t == INT:
                for i in range(-len(c), len(c)):
                    if self.decide(k.e == i):
                        return c[i]
                self.raise_(IndexError)
        if isinstance(o, (ListV, GenL)):
            return self.gl_at(self.list_gl(o), k)
        if isinstance(o, SV) and o.t == JV:
            e = o.e
            if self.decide(J.is_jdict(e)):
                if not self.decide(self.jdict_has(e, k)):
                    self.raise_(KeyError, k)
                return self.jdict_val(e, k)
            if self.decide(J.is_jlist(e)):
                if isinstance(k, int) or isinstance(k, SV) and k.t == INT:
                    jid = simp_e(J.jlid(e))
                    ln = self.jlen(jid)
                    ke = self.coerce(k, INT).e
                    if not self.decide(z3.And(ke < ln, ke >= -ln)):
                        self.raise_(IndexError)
                    ke = simp_e(z3.If(ke < 0, ke + ln, ke))
                    return SV(JV, [self.get_fm("J.at", (I, I), JV).read((jid, ke)).e])
                self.raise_(TypeError)
            if self.decide(J.is_jstr(e)):
                return self.fresh_str()
            self.raise_(TypeError, "not subscriptable")
        if isinstance(o, str) and isinstance(k, int):
            try:
                return o[k]
            except IndexError:
                self.raise_(IndexError)
        if isinstance(o, SV) and o.t == STR and isinstance(k, int):
            ln = z3.Length(o.e)
            if not self.decide(ln > k if k >= 0 else ln >= -k):
                self.raise_(IndexError)
            return SV(STR, [z3.SubString(o.e, z3.IntVal(k) if k >= 0 else ln + k, 1)])
        if isinstance(o, SV) and is_opaque(o.t):
            h = self.externs.get("getitem:" + o.t.cls)
            if h:
                return h(self, o, k)
        if isinstance(o, ExtV):
            h = self.externs.get("getitem:" + o.name)
            if h:
                return h(self, o, k)
        if isinstance(o, ObjRef):
            rec = self.st.objs[o.addr]
            if not isinstance(rec.cls, ClassV):
                h = self.externs.get("getitem:" + str(rec.cls))
                if h:
                    return h(self, o, k)
        if isinstance(o, (bool, int, float)) or isinstance(o, SV) and o.t in (INT, REAL, BOOL, DT, TD):
            self.raise_(TypeError, "not subscriptable")
        raise Unsupported("subscript of %r" % (o,))

    def gl_at(self, g, k):
        n = self.length(g)
        ne = z3.IntVal(n) if isinstance(n, int) else n.e
        if isinstance(k, int):
            if not self.decide(ne > k if k >= 0 else ne >= -k):
                self.raise_(IndexError)
            return g.val(self.witness(g, ("at", k)))
        raise Unsupported("symbolic index")

    def do_slice(self, o, lo, hi, step):
        if is_native(o) and all(x is None or isinstance(x, int) for x in (lo, hi, step)):
            return o[lo:hi:step]
        c = self.conc_list(o) if isinstance(o, (tuple, ListV)) else None
        if c is not None and all(x is None or isinstance(x, int) for x in (lo, hi, step)):
            r = c[lo:hi:step]
            return tuple(r) if isinstance(o, tuple) else self.new_list(r)
        if isinstance(o, SV) and o.t == JV and step is None:
            if self.decide(J.is_jstr(o.e)):
                o = SV(STR, [simp_e(J.js(o.e))])
        if (isinstance(o, str) or isinstance(o, SV) and o.t == STR) and step is None:
            s = self.coerce(o, STR).e
            ln = z3.Length(s)

            def bound(x, d):
                if x is None:
                    return d
                x = self.coerce(self.unopt(x), INT).e
                x = z3.If(x < 0, z3.If(x + ln < 0, z3.IntVal(0), x + ln), z3.If(x > ln, ln, x))
                return simp_e(x)
            a, b = bound(lo, z3.IntVal(0)), bound(hi, ln)
            return SV(STR, [simp_e(z3.SubString(s, a, z3.If(b > a, b - a, z3.IntVal(0))))])
        if isinstance(o, (ListV, GenL)):
            h = self.externs.get("slice:list")
            if h:
                return h(self, o, lo, hi, step)
        raise Unsupported("slice of %r" % (o,))

    # ---- comprehensions
    def ev_ListComp(self, n):
        return self.comp(n.generators, lambda: self.ev(n.elt))

    def ev_SetComp(self, n):
        return self.comp(n.generators, lambda: self.ev(n.elt))

    def ev_GeneratorExp(self, n):
        return self.comp(n.generators, lambda: self.ev(n.elt))

    def ev_DictComp(self, n):
        l = self.comp(n.generators, lambda: (self.ev(n.key), self.ev(n.value)))
        c = self.conc_list(l)
        if c is None:
            raise Unsupported("symbolic dict comprehension")
        d = self.new_dict()
        for k, v in c:
            self.dict_set(d, k, v)
        return d

    def comp(self, gens, elt):
        fid = self.fid
        names = set()
        for g in gens:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        self.fid = self.push_frame(self.cur_mod(), fid, None, ())
        try:
            items = self.comp_rec(gens, elt)
        finally:
            self.fid = fid
        return self.new_list(items)

    def comp_rec(self, gens, elt):
        if not gens:
            return [elt()]
        g = gens[0]
        it = self.iterate(self.ev(g.iter))
        if isinstance(it, list):
            out = []
            for x in it:
                self.assign(g.target, x)
                ok = True
                for c in g.ifs:
                    if not self.test(self.ev(c)):
                        ok = False
                        break
                if ok:
                    out += self.comp_rec(gens[1:], elt)
            return out
        if len(gens) > 1:
            raise Unsupported("nested comprehension over symbolic collections")
        return [Seg(self.gl_map(it, g, elt))]

    def gl_map(self, gl, g, elt):
        """A comprehension over a symbolic collection."""
        xs0 = tuple(fconst(s, "e") for s in gl.sorts)
        mark = name_mark()
        st0 = self.st.clone()
        st0.assume(gl.mult(xs0) > 0)
        for x, cl in zip(xs0, self.gl_cls(gl)):
            st0.add_term(x, cl)
        nf, nu = len(st0.facts), len(st0.univ)

        def body():
            self.assign(g.target, gl.val(xs0))
            for c in g.ifs:
                if not self.test(self.ev(c)):
                    return (False, None)
            return (True, elt())
        outs = self.subexplore(body, st0)
        res = []
        for st, kind, v in outs:
            if kind == "exc":
                res.append((st, None, v))
                continue
            if kind != "next":
                raise Unsupported("comprehension outcome")
            if self.effects(st0, st):
                raise Unsupported("comprehension with effects")
            res.append((st, v[0], v[1]))
        excs = [r for r in res if r[1] is None]
        if excs:
            k = self.pick(len(excs) + 1)
            if k:
                st = excs[k - 1][0]
                self.adopt_facts(st, nf)
                raise PyExc(excs[k - 1][2])
        norms = [r for r in res if r[1] is not None]
        fz = Functionalise(self, mark, xs0)
        if len(norms) == 1:
            conds = [lambda xs: True]
        else:
            sel = z3.Function(fresh_name("sel"), *[s for s in gl.sorts], I)
            conds = [lambda xs, k=k: sel(*xs) == k for k in range(len(norms))]
            self.st.assume_all(gl.sorts, lambda *xs: Implies(gl.mult(xs) > 0,
                                                             And(sel(*xs) >= 0, sel(*xs) < len(norms))), "sel", self.gl_cls(gl))
        for k, (st, p, v) in enumerate(norms):
            fs = fz.own(st, nf)
            if fs:
                self.st.assume_all(gl.sorts, lambda *xs, fs=fs, k=k: Implies(
                    And(gl.mult(xs) > 0, conds[k](xs)), And(*[fz.expr(f, xs) for f in fs])), "comp", self.gl_cls(gl))
            for u in st.univ[nu:]:
                self.assume_univ(gl, u, fz, conds[k])
        keep = [(k, st, v) for k, (st, p, v) in enumerate(norms) if p]

        def mult(xs):
            if len(keep) == len(norms):
                return gl.mult(xs)
            g = Or(*[conds[k](xs) for k, st, v in keep])
            return Ite(g, gl.mult(xs), z3.IntVal(0))

        def val(xs):
            r = None
            for k, st, v in keep:
                x = fz.value(v, xs)
                r = x if r is None else self.ite(conds[k](xs), x, r)
            return r
        ident = None
        if all(isinstance(v, SV) and len(v.cs) == len(xs0) and all(z3.eq(a, b) for a, b in zip(v.cs, xs0))
               for _, _, v in keep) and keep:
            ident = keep[0][2].t
        return GenL(gl.sorts, mult, val, order=gl.order if gl.ident else None, ident=ident,
                    ln=gl.ln if len(keep) == len(norms) else None, distinct=gl.distinct and ident is not None)

    def assume_univ(self, gl, u, fz, cond, member=None):
        member = member or (lambda xs: gl.mult(xs) > 0)
        n = len(gl.sorts)
        self.st.assume_all(tuple(gl.sorts) + u.sorts, lambda *a: Implies(
            And(member(a[:n]), cond(a[:n])), fz.expr(zb(u.fn(*a[n:])), a[:n])), u.name,
            tuple(self.gl_cls(gl)) + tuple(u.cls))

    def adopt_facts(self, st, nf):
        for f, t in zip(st.facts[nf:], st.tags[nf:]):
            self.st.assume(f, t)
        for u in st.univ[len(self.st.univ):]:
            self.st.univ.append(u)
        for k, v in st.terms.items():
            for x in v:
                self.st.add_term(x, st.tcls.get(x.get_id()))

    def effects(self, a, b):
        """Whether b has changed the heap or environment of a."""
        for k, m in b.fm.items():
            if k in a.fm and a.fm[k] is not m:
                return True
        if len(a.events) != len(b.events):
            return True
        for k, r in a.objs.items():
            for f, v in r.fields.items():
                if k in b.objs and b.objs[k].fields.get(f) is not v:
                    return True
        for k, r in a.lists.items():
            if k in b.lists and r.conc != b.lists[k].conc and b.lists[k].conc is not None:
                return True
        for k, r in a.dicts.items():
            if k in b.dicts and r.conc is not None and b.dicts[k].conc is not None and list(r.conc.items()) != list(b.dicts[k].conc.items()):
                return True
        return False

    # ================================================================ iteration
    def iterate(self, v):
        """A python list of values, or a GenL."""
        v = self.unopt(v)
        if v is None or isinstance(v, (int, float)):
            self.raise_(TypeError, "not iterable")
        if isinstance(v, IterV):
            v = v.coll
        if isinstance(v, list):
            return v
        if isinstance(v, str):
            return list(v)
        if isinstance(v, (tuple, ListV)):
            c = self.conc_list(v)
            if c is not None:
                return c
            if isinstance(v, ListV):
                r = self.lrec(v)
                if getattr(r.elem, "name", "") == "seqstr":
                    return self.seq_gl(v)
                if r.conc is not None and len(r.conc) == 1:
                    return r.conc[0].gl
                return self.list_gl(v)
        if isinstance(v, GenL):
            return v
        if isinstance(v, DictV):
            r = self.drec(v)
            if r.conc is not None and all(p is True for p, _ in r.conc.values()):
                return list(r.conc.keys())
            return self.dict_keys_gl(v)
        if isinstance(v, SV) and v.t == JV:
            if self.decide(J.is_jdict(v.e)):
                return self.json_items_gl(v.e, "keys")
            if self.decide(J.is_jlist(v.e)):
                return self.json_list_gl(v.e)
            if self.decide(J.is_jstr(v.e)):
                n = z3.Length(J.js(v.e))
                return GenL((I,), lambda xs: z3.If(z3.And(xs[0] >= 0, xs[0] < n), z3.IntVal(1), z3.IntVal(0)),
                            lambda xs: SV(STR, [z3.SubString(J.js(v.e), xs[0], 1)]), ln=n, distinct=True)
            self.raise_(TypeError, "not iterable")
        if isinstance(v, SV) and v.t == STR:
            n = z3.Length(v.e)
            return GenL((I,), lambda xs: z3.If(z3.And(xs[0] >= 0, xs[0] < n), z3.IntVal(1), z3.IntVal(0)),
                        lambda xs: SV(STR, [z3.SubString(v.e, xs[0], 1)]), ln=n, distinct=True)
        if isinstance(v, SV) and is_opaque(v.t):
            h = self.externs.get("iter:" + v.t.cls)
            if h:
                return self.iterate(h(self, v))
        raise Unsupported("iteration over %r" % (v,))

    # sequences of strings with their order (field type seqstr)
    def seq_gl(self, l):
        s = self.seq_read(l)
        n = z3.Length(s)
        return GenL((I,), lambda xs: z3.If(z3.And(xs[0] >= 0, xs[0] < n), z3.IntVal(1), z3.IntVal(0)),
                    lambda xs: SV(STR, [s[xs[0]]]), ln=n, distinct=True)

    def seq_fm(self, l, st=None):
        return self.get_fm("seq:" + l.lid, tuple(x.sort() for x in l.idx), SEQ, st)

    def seq_read(self, l, st=None):
        return self.seq_fm(l, st).read(l.idx).e

    def seq_write(self, l, e):
        self.st.fm["seq:" + l.lid] = self.seq_fm(l).put(l.idx, (e,))

    def seq_get(self, l, k):
        s = self.seq_read(l)
        if not isinstance(k, int) or k < 0:
            raise Unsupported("index of a sequence")
        if not self.decide(z3.Length(s) > k):
            self.raise_(IndexError)
        return SV(STR, [s[k]])

    def is_seq(self, l):
        return isinstance(l, ListV) and getattr(self.lrec(l).elem, "name", "") == "seqstr"

    # ================================================================ calls
    def ev_Call(self, n):
        if isinstance(n.func, ast.Attribute) and n.func.attr in LOG_METHODS and self.is_logger(n.func.value):
            return self.do_log(n)
        if isinstance(n.func, ast.Name) and n.func.id == "super" and \
                not isinstance(self.st.locals[self.fid].get("super"), FuncV):
            return self.do_super(n)
        f = self.ev(n.func)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                c = self.conc_list(v)
                if c is None:
                    raise Unsupported("call with symbolic star arguments")
                args += c
            else:
                args.append(self.ev(a))
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value)
                if isinstance(d, DictV) and self.drec(d).conc is not None:
                    for kk, (p, v) in self.drec(d).conc.items():
                        if self.decide(p):
                            kw[kk] = v
                    continue
                raise Unsupported("call with symbolic keyword arguments")
            kw[k.arg] = self.ev(k.value)
        return self.call(f, args, kw)

    def is_logger(self, n):
        s = ast.unparse(n)
        return s.split(".")[-1] in ("logger", "logging", "log", "_logger")

    def do_log(self, n):
        for a in n.args:
            try:
                self.ev_quiet(a)
            except Unsupported:
                self.used_externs.add("log message formatting (assumed not to fail)")
        return None

    def ev_quiet(self, a):
        """Evaluate for possible exceptions only."""
        if isinstance(a, ast.Constant):
            return
        st0 = self.st.clone()
        outs = self.subexplore(lambda: (self.ev(a), None)[1], st0)
        excs = [o for o in outs if o[1] == "exc"]
        if excs:
            k = self.pick(len(excs) + 1)
            if k:
                st, _, e = excs[k - 1]
                self.st = st
                raise PyExc(e)

    def subexplore(self, thunk, base):
        """explore, with the result kept for replays of the same path."""
        self.subn += 1
        key = (self.ctx, tuple(d for d, _ in self.script[:self.pos]), name_mark(), self.in_quiet, len(base.facts),
               self.subn)
        c = self.subcache.get(key)
        if c is None:
            octx = self.ctx
            self.ctx = key
            try:
                outs = self.explore(thunk, base)
            finally:
                self.ctx = octx
            c = (outs, name_mark())
            self.subcache[key] = c
        outs, hi = c
        name_reset(hi)
        return [(s.clone(), k, v) for s, k, v in outs]

    def do_super(self, n):
        fr = self.st.locals[self.fid]["__frame__"]
        cls = fr[2]
        fid = self.fid
        names = fr[3]
        obj = None
        L = self.st.locals[fid]
        f = L.get("__self__")
        if n.args:
            cls = self.ev(n.args[0])
            f = self.ev(n.args[1])
        return ExtV("super", (cls, f))

    def call(self, f, args, kw):
        if isinstance(f, BoundV):
            return self.call_func(f.func, [f.obj] + list(args), kw)
        if isinstance(f, FuncV):
            return self.call_func(f, list(args), kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, list(args), kw)
        if isinstance(f, type):
            return self.call_type(f, args, kw)
        if isinstance(f, ExtV):
            return self.call_ext(f, args, kw)
        if isinstance(f, SV) and is_opaque(f.t):
            h = self.externs.get("call:" + f.t.cls)
            if h:
                return h(self, f, args, kw)
        if f is None or is_native(f) and not isinstance(f, type):
            self.raise_(TypeError, "not callable")
        raise Unsupported("call of %r" % (f,))

    def bind(self, f, args, kw):
        a = f.node.args
        L = {}
        params = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kw)
        if len(args) > len(params):
            if a.vararg is None:
                self.raise_(TypeError, "too many arguments")
            L[a.vararg.arg] = tuple(args[len(params):])
            args = args[:len(params)]
        elif a.vararg is not None:
            L[a.vararg.arg] = ()
        for p, v in zip(params, args):
            L[p] = v
        nd = len(params) - len(a.defaults)
        for i, p in enumerate(params):
            if p in L:
                if p in kw:
                    self.raise_(TypeError, "two values for " + p)
                continue
            if p in kw:
                L[p] = kw.pop(p)
            elif i >= nd:
                L[p] = self.default_value(f, a.defaults[i - nd])
            else:
                self.raise_(TypeError, "missing argument " + p)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg in kw:
                L[p.arg] = kw.pop(p.arg)
            elif d is not None:
                L[p.arg] = self.default_value(f, d)
            else:
                self.raise_(TypeError, "missing argument " + p.arg)
        if kw:
            if a.kwarg is None:
                self.raise_(TypeError, "unexpected argument")
            L[a.kwarg.arg] = self.new_dict(list(kw.items()))
        elif a.kwarg is not None:
            L[a.kwarg.arg] = self.new_dict()
        return L

    def default_value(self, f, d):
        if isinstance(d, (ast.List, ast.Dict, ast.Set)):
            raise Unsupported("mutable default argument")
        fid, self.fid = self.fid, self.push_frame(f.mod, f.closure, None, ())
        try:
            return self.ev(d)
        finally:
            self.fid = fid

    def call_func(self, f, args, kw):
        c = self.contracts.get(f.qual)
        if c is not None and not (f.qual == self.root and self.depth == 0):
            L = self.bind(f, args, kw)
            self.used_contracts.add(f.qual)
            return c.apply(self, L)
        if self.depth > 25:
            raise Unsupported("call depth")
        if f.qual not in ("<lambda>",):
            self.inlined.add(f.qual)
        dec = getattr(f, "decorators", None)
        if dec is None and isinstance(f.node, ast.FunctionDef) and f.node.decorator_list:
            raise Unsupported("decorated function")
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
            raise Unsupported("generator function")
        return self.run_func(f, args, kw)

    def run_func(self, f, args, kw):
        L = self.bind(f, args, kw)
        fid0 = self.fid
        names = assigned_names(f.node)
        self.fid = self.push_frame(f.mod, f.closure, f.cls, names)
        self.st.locals[self.fid].update(L)
        if f.cls is not None and args:
            self.st.locals[self.fid]["__self__"] = args[0]
        self.depth += 1
        d0 = self.depth
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body)
            try:
                self.block(f.node.body)
            except ReturnSig as r:
                return r.v
            return None
        finally:
            self.depth = d0 - 1
            self.fid = fid0

    def instantiate(self, cls, args, kw):
        if self.is_exc_class(cls):
            return ExcV(cls, args)
        c = self.contracts.get(cls.mod + "." + cls.name)
        if c is not None:
            return c(self, args, kw)
        if cls.name in self.schema and self.schema[cls.name].get("__population__"):
            o = self.alloc(cls.name)
        else:
            addr = fresh_name("obj:" + cls.name)
            self.st.objs[addr] = ObjRec(cls, {})
            o = ObjRef(addr)
        f = self.prog.method(cls, "__init__")
        if f is not None:
            self.call_func(f, [o] + args, kw)
        elif args or kw:
            self.raise_(TypeError, "arguments")
        return o

    loop_par = None

    def alloc(self, cls):
        fresh_name("alloc")
        n = name_mark()
        if self.loop_par is not None:
            r = Ref.Alloc(z3.IntVal(n), self.loop_par)
            self.sites[n] = (cls, self.st.tcls.get(self.loop_par.get_id()))
        else:
            r = Ref.New(z3.IntVal(n))
        self.st.allocs.append(r)
        self.add_term(r, cls)
        return SV(RefT(cls), [r])

    def made_for(self, par, cls):
        """The objects made in a loop for its element par."""
        return [(Ref.Alloc(z3.IntVal(n), par),) for n, (c, _) in self.sites.items() if c == cls]

    def is_exc_class(self, cls):
        nb = self.prog.native_base(cls)
        if nb is None:
            return False
        t = getattr(builtins, nb, None)
        return isinstance(t, type) and issubclass(t, BaseException)

    def call_type(self, t, args, kw):
        if issubclass(t, BaseException):
            return ExcV(t, args)
        h = getattr(self, "type_" + t.__name__, None)
        if h is None:
            raise Unsupported("call of type " + t.__name__)
        return h(args, kw)

    def type_type(self, args, kw):
        v = args[0]
        if isinstance(v, SV) and (is_opt(v.t) or v.t == JV):
            return TypeOf(v)
        return self.pytype(v)

    def type_str(self, args, kw):
        return self.to_str(args[0]) if args else ""

    def type_bool(self, args, kw):
        return self.mkbool(self.truth(args[0])) if args else False

    def type_int(self, args, kw):
        v = self.num_json(self.unopt(args[0])) if args else 0
        if is_native(v):
            try:
                return int(v)
            except (ValueError, TypeError, OverflowError) as e:
                self.raise_(type(e))
        if isinstance(v, SV):
            if v.t == INT:
                return v
            if v.t == BOOL:
                return self.coerce(v, INT)
            if v.t == REAL:
                x = v.e
                return SV(INT, [z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))])
            if v.t == STR:
                return self.str_to_int(v)
        if isinstance(v, SV) and v.t == JV:
            self.raise_(TypeError)
        raise Unsupported("int of %r" % (v,))

    def str_to_int(self, v):
        if z3.is_app(v.e) and v.e.decl().name() == "digits":
            n = z3.Function("digits.num", I, I)(v.e.arg(0))
            self.st.assume(n >= 0)
            return SV(INT, [n])
        ok = z3.InRe(v.e, z3.Plus(z3.Range("0", "9")))
        if self.decide(ok):
            return SV(INT, [z3.StrToInt(v.e)])
        if self.maybe("int_ok"):
            return fresh(INT, "int")
        self.raise_(ValueError)

    def type_float(self, args, kw):
        v = self.num_json(self.unopt(args[0])) if args else 0.0
        if is_native(v):
            try:
                r = float(v)
            except (ValueError, TypeError) as e:
                self.raise_(type(e))
            return r
        if isinstance(v, SV):
            if v.t in (INT, REAL, BOOL):
                return norm(SV(REAL, [simp_e(self.coerce(self.coerce(v, INT) if v.t == BOOL else v, REAL).e)]))
            if v.t == STR:
                if self.maybe("float_ok"):
                    return fresh(REAL, "float")
                self.raise_(ValueError)
            if v.t == JV:
                self.raise_(TypeError)
        raise Unsupported("float of %r" % (v,))

    def type_list(self, args, kw):
        if not args:
            return self.new_list([])
        it = self.iterate(args[0])
        return self.new_list(it) if isinstance(it, list) else self.list_copy(it)

    def type_set(self, args, kw):
        return self.type_list(args, kw)

    def type_tuple(self, args, kw):
        if not args:
            return ()
        it = self.iterate(args[0])
        if isinstance(it, list):
            return tuple(it)
        raise Unsupported("tuple of a symbolic collection")

    def type_dict(self, args, kw):
        if not args:
            return self.new_dict(list(kw.items()))
        v = args[0]
        if isinstance(v, DictV) and self.drec(v).conc is not None:
            d = self.new_dict()
            self.st.dicts[d.did].conc.update(self.drec(v).conc)
            return d
        raise Unsupported("dict()")

    def call_ext(self, f, args, kw):
        h = self.externs.get(f.name)
        if h is not None:
            self.used_externs.add(f.name)
            return h(self, f, args, kw)
        raise Unsupported("external " + f.name)

    # ================================================================ statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, n):
        m = getattr(self, "ex_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(n).__name__)
        m(n)

    def ex_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.ev(n.value)

    def ex_Pass(self, n):
        pass

    def ex_Global(self, n):
        raise Unsupported("global statement")

    def ex_Import(self, n):
        for a in n.names:
            if a.asname:
                self.store_name(a.asname, ModV(a.name))
            else:
                self.store_name(a.name.split(".")[0], ModV(a.name.split(".")[0]))

    def ex_ImportFrom(self, n):
        base = n.module or ""
        for a in n.names:
            if self.prog.is_mod(base):
                self.store_name(a.asname or a.name, self.global_name(base, a.name))
            else:
                self.store_name(a.asname or a.name, self.load_attr(ModV(base), a.name))

    def ex_FunctionDef(self, n):
        self.store_name(n.name, FuncV(n, self.cur_mod(), closure=self.fid, qual="<local>." + n.name))

    def ex_Return(self, n):
        raise ReturnSig(self.ev(n.value) if n.value is not None else None)

    def ex_Break(self, n):
        raise BreakSig()

    def ex_Continue(self, n):
        raise ContinueSig()

    def ex_Assign(self, n):
        v = self.ev(n.value)
        for t in n.targets:
            self.assign(t, v)

    def ex_AnnAssign(self, n):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value))

    def ex_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            cur = self.load_name(n.target.id)
        else:
            l = ast.copy_location(ast.parse(ast.unparse(n.target), mode="eval").body, n)
            cur = self.ev(l)
        v = self.ev(n.value)
        if isinstance(cur, (ListV,)) and isinstance(n.op, ast.Add):
            return self.list_extend(cur, v)
        if isinstance(n.op, ast.Add) and isinstance(cur, ExcV):
            return
        self.assign(n.target, self.binop(n.op, cur, v))

    def list_extend(self, l, v):
        it = self.iterate(v)
        if isinstance(it, list):
            for x in it:
                self.list_append(l, x)
            return
        r = self.lrec(l)
        if r.conc is not None:
            r.conc.append(Seg(it))
            return
        raise Unsupported("extend")

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, SV) and is_opaque(v.t):
                h = self.externs.get("unpack:" + v.t.cls)
                if h:
                    v = h(self, v, len(t.elts))
            vs = self.conc_list(v) if isinstance(v, (tuple, ListV)) else None
            if vs is None:
                raise Unsupported("unpacking of %r" % (v,))
            if len(vs) != len(t.elts):
                self.raise_(ValueError, "unpack")
            for a, b in zip(t.elts, vs):
                self.assign(a, b)
        elif isinstance(t, ast.Attribute):
            self.store_attr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.unopt(self.ev(t.value))
            self.setitem(o, self.ev(t.slice), v)
        else:
            raise Unsupported("assignment target")

    def setitem(self, o, k, v):
        if isinstance(o, DictV):
            return self.dict_set(o, k, v)
        if isinstance(o, SV) and o.t == JV:
            if self.decide(J.is_jdict(o.e)):
                return self.jdict_set(o.e, k, v)
            self.raise_(TypeError)
        if isinstance(o, ListV):
            r = self.lrec(o)
            if r.conc is not None and isinstance(k, int) and not any(isinstance(x, Seg) for x in r.conc):
                if not -len(r.conc) <= k < len(r.conc):
                    self.raise_(IndexError)
                r.conc[k] = v
                return
        if isinstance(o, ExtV):
            h = self.externs.get("setitem:" + o.name)
            if h:
                return h(self, o, k, v)
        raise Unsupported("item assignment to %r" % (o,))

    def store_attr(self, o, a, v):
        o = self.unopt(o)
        if o is None:
            self.raise_(AttributeError, a)
        if isinstance(o, ObjRef):
            self.didset(o, a)
            t = self.schema.get(getattr(self.st.objs[o.addr].cls, "name", None), {}).get(a)
            if t is not None and is_dict(t) and isinstance(v, DictV) and self.drec(v).conc == {}:
                self.dictify(v, t.key, t.elem)
            self.st.objs[o.addr].fields[a] = v
            return
        if isinstance(o, SV) and is_ref(o.t):
            t = self.schema.get(o.t.cls, {}).get(a)
            if t is None:
                raise Unsupported("undeclared field %s.%s" % (o.t.cls, a))
            if is_list(t):
                l = ListV(o.t.cls + "." + a, (o.cs[0],))
                if t.elem.name == "seqstr":
                    return self.set_seq(l, v)
                return self.set_list(l, v)
            if is_dict(t):
                return self.set_dict(DictV(o.t.cls + "." + a, (o.cs[0],)), v)
            return self.fmwrite(o.t.cls + "." + a, (o.cs[0],), v)
        if isinstance(o, ExcV):
            o.fields[a] = v
            return
        if isinstance(o, ExtV):
            h = self.externs.get("setattr:" + o.name + "." + a)
            if h:
                return h(self, o, v)
        raise Unsupported("attribute assignment to %r" % (o,))

    def didset(self, o, a):
        pass

    def set_seq(self, l, v):
        c = self.conc_list(v) if isinstance(v, (ListV, tuple)) else None
        if self.is_seq(v):
            return self.seq_write(l, self.seq_read(v))
        if c is not None:
            e = z3.Empty(SEQ.sorts[0])
            for x in c:
                e = z3.Concat(e, z3.Unit(self.coerce(x, STR).e))
            return self.seq_write(l, simp_e(e))
        if isinstance(v, SV) and v.t == JV and self.decide(J.is_jlist(v.e)):
            f = z3.Function("json.strseq", I, SEQ.sorts[0])
            return self.seq_write(l, f(J.jlid(v.e)))
        raise Unsupported("sequence field set to %r" % (v,))

    def set_dict(self, d, v):
        """Contents of an owned dict become those of a temporary one."""
        if isinstance(v, SV) and v.t == JV:
            h = self.externs.get("json_to_dict")
            if h:
                return h(self, d, v)
        if not isinstance(v, DictV):
            raise Unsupported("dict field set to %r" % (v,))
        r = self.drec(v)
        h, g = self.dict_fms(d)
        idx = tuple(d.idx)
        k = len(idx)
        t = self.drec(d).t
        own = lambda a: And(*[term_eq(p, q) for p, q in zip(a[:k], idx)])
        if r.conc is not None:
            h = h.upd(own, lambda a: (z3.BoolVal(False),))
            self.st.fm["has:" + d.did] = h
            for kk, (p, x) in r.conc.items():
                if p is True:
                    self.dict_set(d, kk, x)
                else:
                    raise Unsupported("conditional dict entries")
            return
        h2, g2 = self.dict_fms(v)
        if r.t.key != t.key or r.t.elem != t.elem or g is None:
            raise Unsupported("dict of other types")
        vi = tuple(v.idx)
        self.st.fm["has:" + d.did] = h.upd(own, lambda a: h2.read(vi + tuple(a[k:])).cs)
        self.st.fm["get:" + d.did] = g.upd(own, lambda a: g2.read(vi + tuple(a[k:])).cs)

    def ex_Delete(self, n):
        for t in n.targets:
            if isinstance(t, ast.Name):
                L = self.st.locals[self.fid]
                if t.id not in L:
                    self.raise_(NameError)
                del L[t.id]
            elif isinstance(t, ast.Subscript):
                o = self.unopt(self.ev(t.value))
                k = self.ev(t.slice)
                if isinstance(o, DictV):
                    self.dict_del(o, k)
                elif isinstance(o, SV) and o.t == JV:
                    if not self.decide(J.is_jdict(o.e)):
                        self.raise_(TypeError)
                    if not self.decide(self.jdict_has(o.e, k)):
                        self.raise_(KeyError)
                    self.st.fm["J.has"] = self.jhas().put((simp_e(J.jdid(o.e)), self.to_json(k)), (z3.BoolVal(False),))
                else:
                    raise Unsupported("del")
            else:
                raise Unsupported("del")

    def ex_Assert(self, n):
        if not self.test(self.ev(n.test)):
            self.raise_(AssertionError)

    def ex_Raise(self, n):
        if n.exc is None:
            cur = getattr(self, "cur_exc", None)
            e = self.st.ghost.get("cur_exc")
            if e is None:
                raise Unsupported("bare raise")
            raise PyExc(e)
        v = self.ev(n.exc)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = ExcV(v)
        if isinstance(v, ClassV):
            v = ExcV(v)
        if not isinstance(v, ExcV):
            raise Unsupported("raise of %r" % (v,))
        raise PyExc(v)

    def exc_matches(self, e, t):
        if isinstance(t, tuple):
            return any(self.exc_matches(e, x) for x in t)
        if isinstance(t, ExtV):
            t = EXC_ALIASES.get(t.name)
            if t is None:
                raise Unsupported("exception class")
        c = e.cls
        if isinstance(t, ClassV):
            return isinstance(c, ClassV) and self.prog.is_subclass(c, t)
        if isinstance(c, ClassV):
            nb = self.prog.native_base(c)
            c = getattr(builtins, nb)
        if not isinstance(t, type):
            raise Unsupported("exception class %r" % (t,))
        return issubclass(c, t)

    def ex_Try(self, n):
        try:
            try:
                self.block(n.body)
            except PyExc as p:
                for h in n.handlers:
                    if h.type is None or self.exc_matches(p.exc, self.ev(h.type)):
                        prev = self.st.ghost.get("cur_exc")
                        self.st.ghost["cur_exc"] = p.exc
                        if h.name:
                            self.store_name(h.name, p.exc)
                        self.block(h.body)
                        self.st.ghost["cur_exc"] = prev
                        if h.name:
                            self.st.locals[self.fid].pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.block(n.orelse)
        except (PyExc, ReturnSig, BreakSig, ContinueSig):
            if n.finalbody:
                self.block(n.finalbody)
            raise
        if n.finalbody:
            self.block(n.finalbody)

    def ex_With(self, n):
        for it in n.items:
            v = self.ev(it.context_expr)
            if isinstance(v, SV) and is_opaque(v.t) or isinstance(v, (ExtV, ObjRef)):
                nm = v.t.cls if isinstance(v, SV) else (v.name if isinstance(v, ExtV) else str(self.st.objs[v.addr].cls))
                h = self.externs.get("enter:" + nm)
                if h:
                    v = h(self, v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        self.block(n.body)

    def ex_If(self, n):
        t = self.truth(self.ev(n.test))
        t = simp(t) if not isinstance(t, bool) else t
        if isinstance(t, bool):
            return self.block(n.body if t else n.orelse)
        if self.mergeable(n.body) and self.mergeable(n.orelse):
            if self.merge_if(n, t):
                return
        if self.decide(t):
            self.block(n.body)
        else:
            self.block(n.orelse)

    def mergeable(self, stmts):
        for s in stmts:
            if isinstance(s, ast.Pass):
                continue
            if isinstance(s, ast.Assign):
                if all(isinstance(t, ast.Subscript) for t in s.targets):
                    continue
                return False
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and \
                    isinstance(s.value.func, ast.Attribute) and s.value.func.attr in LOG_METHODS | {"append"}:
                continue
            if isinstance(s, ast.If) and self.mergeable(s.body) and self.mergeable(s.orelse):
                continue
            return False
        return True

    def merge_if(self, n, t):
        """One state for both branches of an effect-only statement."""
        if not (self.feasible(zb(t)) and self.feasible(zb(Not(t)))):
            return False
        base = self.st
        mark = name_mark()
        outs = []
        for c, body in ((t, n.body), (Not(t), n.orelse)):
            b = base.clone()
            b.assume(c, "b")
            try:
                o = self.subexplore(lambda: self.block(body), b)
            except Unsupported:
                name_reset(mark)
                return False
            if len(o) != 1 or o[0][1] != "next":
                name_reset(mark)
                return False
            outs.append(o[0][0])
        try:
            m = self.merge(base, t, outs[0], outs[1])
        except Unsupported:
            m = None
        if m is None:
            name_reset(mark)
            return False
        self.st = m
        return True

    def merge(self, base, c, a, b):
        m = base.clone()
        nf = len(base.facts) + 1
        for st, g in ((a, c), (b, Not(c))):
            for f, tag in zip(st.facts[nf:], st.tags[nf:]):
                m.assume(Implies(g, f), tag)
            for u in st.univ[len(base.univ):]:
                m.univ.append(Univ(u.sorts, lambda *x, u=u, g=g: Implies(g, u.fn(*x)), u.name))
            for k, ts in st.terms.items():
                for x in ts:
                    m.add_term(x)
            for k in st.prov:
                m.prov.setdefault(k, st.prov[k])
            for k, r in st.objs.items():
                if k not in m.objs:
                    m.objs[k] = r.copy()
            for k, r in st.lists.items():
                if k not in m.lists:
                    m.lists[k] = r.copy()
            for k, r in st.dicts.items():
                if k not in m.dicts:
                    m.dicts[k] = r.copy()
        for k in set(a.fm) | set(b.fm):
            x, y = a.fm.get(k), b.fm.get(k)
            if x is None or y is None:
                # not looked at on the other side
                w = x or y
                o = base.fm.get(k)
                if o is None:
                    o = self.fmcache.get((k, w.argsorts, True)) or self.fmcache.get((k, w.argsorts, False))
                if o is None:
                    m.fm[k] = w
                    continue
                x, y = x or o, y or o
            if x is y:
                m.fm[k] = x
            else:
                m.fm[k] = FieldMap(k, x.argsorts, x.t, lambda args, x=x, y=y: [
                    Ite(c, p, q) for p, q in zip(x.read(args).cs, y.read(args).cs)])
        self.st = m
        for k, r in base.objs.items():
            for f in set(a.objs[k].fields) | set(b.objs[k].fields):
                x, y = a.objs[k].fields.get(f), b.objs[k].fields.get(f)
                m.objs[k].fields[f] = x if x is y else self.ite(c, x, y)
        for k, r in base.lists.items():
            x, y = a.lists[k], b.lists[k]
            if x.conc is None and y.conc is None:
                m.lists[k] = x.copy()
            elif x.conc is not None and y.conc is not None and len(x.conc) == len(y.conc):
                m.lists[k].conc = [p if p is q else self.ite(c, p, q) for p, q in zip(x.conc, y.conc)]
            else:
                self.st = base
                return None
        for k, r in base.dicts.items():
            x, y = a.dicts[k], b.dicts[k]
            if (x.conc is None) != (y.conc is None):
                self.st = base
                return None
            if x.conc is None:
                m.dicts[k] = x.copy()
                continue
            keys = list(x.conc) + [q for q in y.conc if q not in x.conc]
            out = {}
            for q in keys:
                px, vx = x.conc.get(q, (False, None))
                py, vy = y.conc.get(q, (False, None))
                p = simp(Ite(c, zb(px), zb(py)))
                if q not in x.conc:
                    v = vy
                elif q not in y.conc:
                    v = vx
                else:
                    v = vx if vx is vy else self.ite(c, vx, vy)
                out[q] = (p, v)
            m.dicts[k].conc = out
        for fid, L in base.locals.items():
            for nm in set(a.locals[fid]) | set(b.locals[fid]):
                x, y = a.locals[fid].get(nm), b.locals[fid].get(nm)
                if x is not y:
                    self.st = base
                    return None
        ne = len(base.events)
        for st, g in ((a, c), (b, Not(c))):
            for e in st.events[ne:]:
                m.events.append(Event(e.kind, e.args, And(e.guard, g), e.snap, e.bulk))
        m.ghost = dict(a.ghost)
        for q in set(a.ghost) | set(b.ghost):
            if a.ghost.get(q) is not b.ghost.get(q):
                self.st = base
                return None
        m.allocs = a.allocs + [r for r in b.allocs if not any(z3.eq(r, q) for q in a.allocs)]
        return m

    def ex_While(self, n):
        self.loop_while(n)

    def ex_For(self, n):
        coll = self.ev(n.iter)
        it = self.iterate(coll)
        if isinstance(it, list):
            broke = False
            for x in it:
                self.assign(n.target, x)
                try:
                    self.block(n.body)
                except BreakSig:
                    broke = True
                    break
                except ContinueSig:
                    continue
            if not broke:
                self.block(n.orelse)
            return
        self.loop_for(n, it, coll)


class Functionalise:
    """Turns symbols made after the mark into functions of the loop element."""

    def __init__(self, ex, mark, xs0):
        self.ex, self.mark, self.xs0 = ex, mark, xs0
        self.map = {}
        self.cache = {}
        self.keepx = []

    def isnew(self, name):
        i = name.rfind("!")
        if i < 0:
            return False
        s = name[i + 1:]
        return s.isdigit() and int(s) > self.mark

    def expr(self, e, xs):
        """e for the element xs."""
        if not isinstance(e, z3.ExprRef):
            return e
        key = e.get_id()
        c = self.cache.get(key)
        if c is None:
            # once for placeholders, which are then replaced
            if self.place is None:
                self.place = tuple(z3.Const(fresh_name("place"), x.sort()) for x in self.xs0)
            t = self._walk(e, self.place, {})
            c = self.cache[key] = (t, e, z3.eq(t, e))
        if c[2]:
            return c[1]
        return z3.substitute(c[0], *zip(self.place, xs))

    place = None

    def own(self, st, nf):
        """The facts of an iteration which are not instances of general ones
        over terms known outside of it."""
        out = []
        for f, tag in zip(st.facts[nf:], st.tags[nf:]):
            if z3.is_true(f):
                continue
            if tag == "i" and not self.hasnew(f, set()):
                continue
            out.append(f)
        return out

    def hasnew(self, e, seen):
        if e.get_id() in seen:
            return False
        seen.add(e.get_id())
        if not z3.is_app(e):
            return False
        d = e.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED and self.isnew(d.name()) and \
                not any(z3.eq(e, x) for x in self.xs0):
            return True
        return any(self.hasnew(c, seen) for c in e.children())

    def _walk(self, e, xs, memo):
        r = memo.get(e.get_id())
        if r is not None:
            return r
        for a, b in zip(self.xs0, xs):
            if z3.eq(e, a):
                memo[e.get_id()] = b
                return b
        if z3.is_app(e):
            d = e.decl()
            ch = [self._walk(c, xs, memo) for c in e.children()]
            if d.kind() == z3.Z3_OP_UNINTERPRETED and self.isnew(d.name()):
                f = self.map.get(d.name())
                if f is None:
                    dom = [x.sort() for x in self.xs0] + [d.domain(i) for i in range(d.arity())]
                    f = z3.Function(fresh_name(d.name().replace("!", "_") + ".f"), *dom, d.range())
                    self.map[d.name()] = f
                r = f(*xs, *ch)
            elif ch:
                same = all(z3.eq(a, b) for a, b in zip(ch, e.children()))
                if same:
                    r = e
                elif z3.is_and(e):
                    r = z3.And(*ch)
                elif z3.is_or(e):
                    r = z3.Or(*ch)
                else:
                    r = d(*ch)
            else:
                r = e
        else:
            r = e
        memo[e.get_id()] = r
        return r

    def value(self, v, xs):
        if isinstance(v, SV):
            return norm(SV(v.t, [self.expr(c, xs) for c in v.cs]))
        if isinstance(v, tuple):
            return tuple(self.value(x, xs) for x in v)
        if isinstance(v, ListV):
            return ListV(v.lid, [self.expr(c, xs) for c in v.idx])
        if isinstance(v, DictV):
            return DictV(v.did, [self.expr(c, xs) for c in v.idx])
        if v is None or is_native(v) or isinstance(v, (ObjRef, ClassV, FuncV, Opaque, ModV)):
            return v
        if isinstance(v, ExtV):
            return v
        raise Unsupported("value of a comprehension: %r" % (v,))
