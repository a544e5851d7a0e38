"""Values, types, field maps and symbolic states of the verifier."""
import itertools
import z3

z3.z3.Z3_DEBUG = False


class Unsupported(Exception):
    """The construct is outside the verified subset (never a verdict)."""


class Infeasible(Exception):
    """The current path cannot happen."""


# ---------------------------------------------------------------- sorts
_R = z3.Datatype("Ref")
_R.declare("Old", ("oid", z3.IntSort()))
_R.declare("New", ("nid", z3.IntSort()))
_R.declare("Alloc", ("site", z3.IntSort()), ("par", _R))   # made in a loop, for the element par
_R.declare("KeyS", ("ks", z3.StringSort()))                # loop elements which are no references
_R.declare("KeyI", ("ki", z3.IntSort()))
_R.declare("Pair", ("fst", _R), ("snd", _R))
Ref = _R.create()

_J = z3.Datatype("J")
_J.declare("jnone")
_J.declare("jbool", ("jb", z3.BoolSort()))
_J.declare("jint", ("ji", z3.IntSort()))
_J.declare("jreal", ("jr", z3.RealSort()))
_J.declare("jstr", ("js", z3.StringSort()))
_J.declare("jlist", ("jlid", z3.IntSort()))
_J.declare("jdict", ("jdid", z3.IntSort()))
_J.declare("jother", ("joid", z3.IntSort()))
J = _J.create()

B, I, R, S = z3.BoolSort(), z3.IntSort(), z3.RealSort(), z3.StringSort()


# ---------------------------------------------------------------- types
class T:
    def __init__(self, name, sorts, elem=None, key=None, cls=None):
        self.name, self.sorts, self.elem, self.key, self.cls = name, tuple(sorts), elem, key, cls

    def __repr__(self):
        return self.name

    def __eq__(self, o):
        return isinstance(o, T) and self.name == o.name

    def __hash__(self):
        return hash(self.name)


BOOL, INT, REAL, STR = T("bool", [B]), T("int", [I]), T("real", [R]), T("str", [S])
DT = T("dt", [R, I])      # aware datetime: seconds since the epoch, timezone id
NDT = T("ndt", [R])       # naive datetime, meaning local time
TD = T("td", [R])
TZ = T("tz", [I])
JV = T("json", [J])
NONE = T("none", [])
SEQ = T("seqstr", [z3.SeqSort(z3.StringSort())])   # strings with their order


def RefT(cls):
    return T("ref:" + cls, [Ref], cls=cls)


def OptT(t):
    if t.name.startswith("opt:") or t == NONE:
        return t if t.name.startswith("opt:") else T("opt:none", [B], elem=NONE)
    return T("opt:" + t.name, [B] + list(t.sorts), elem=t)


def ListT(t):
    return T("list:" + t.name, [], elem=t)


def DictT(k, v, keyfield=None):
    t = T("dict:%s,%s" % (k.name, v.name), [], elem=v, key=k)
    t.keyfield = keyfield
    return t


def OpaqueT(name):
    return T("opaque:" + name, [I], cls=name)


def is_opt(t):
    return t.name.startswith("opt:")


def is_ref(t):
    return t.name.startswith("ref:")


def is_list(t):
    return t.name.startswith("list:")


def is_dict(t):
    return t.name.startswith("dict:")


def is_opaque(t):
    return t.name.startswith("opaque:")


LOCAL_TZ = z3.Const("tz!local", I)


# ---------------------------------------------------------------- values
class SV:
    """A symbolic value: a type and its z3 components."""
    __slots__ = ("t", "cs")

    def __init__(self, t, cs):
        self.t, self.cs = t, tuple(cs)
        assert len(self.cs) == len(t.sorts), (t, cs)

    @property
    def e(self):
        return self.cs[0]

    def __repr__(self):
        return "SV<%s %s>" % (self.t, ", ".join(map(str, self.cs)))


class ObjRef:
    """A singleton object at a concrete address."""
    __slots__ = ("addr",)

    def __init__(self, addr):
        self.addr = addr

    def __eq__(self, o):
        return isinstance(o, ObjRef) and o.addr == self.addr

    def __hash__(self):
        return hash(self.addr)

    def __repr__(self):
        return "<obj %s>" % self.addr


class ListV:
    """Handle of a mutable list; idx are the z3 terms of its owner."""
    __slots__ = ("lid", "idx", "epoch")

    def __init__(self, lid, idx=(), epoch=None):
        self.lid, self.idx, self.epoch = lid, tuple(idx), epoch

    def __repr__(self):
        return "<list %s%s>" % (self.lid, list(self.idx) or "")


class DictV:
    __slots__ = ("did", "idx")

    def __init__(self, did, idx=()):
        self.did, self.idx = did, tuple(idx)

    def __repr__(self):
        return "<dict %s%s>" % (self.did, list(self.idx) or "")


class FuncV:
    def __init__(self, node, mod, closure=None, qual=None, cls=None):
        self.node, self.mod, self.closure, self.qual, self.cls = node, mod, closure, qual, cls


class BoundV:
    def __init__(self, obj, func):
        self.obj, self.func = obj, func


class ClassV:
    def __init__(self, mod, name, node):
        self.mod, self.name, self.node = mod, name, node

    def __eq__(self, o):
        return isinstance(o, ClassV) and (o.mod, o.name) == (self.mod, self.name)

    def __hash__(self):
        return hash((self.mod, self.name))

    def __repr__(self):
        return "<class %s.%s>" % (self.mod, self.name)


class ModV:
    """A module, by dotted name; avail is the condition that it imported."""

    def __init__(self, name, avail=True):
        self.name, self.avail = name, avail

    def __repr__(self):
        return "<module %s>" % self.name


class ExtV:
    """An external function or attribute, by dotted name."""

    def __init__(self, name, recv=None):
        self.name, self.recv = name, recv

    def __repr__(self):
        return "<extern %s>" % self.name


class ExcV:
    def __init__(self, cls, args=(), fields=None):
        self.cls, self.args, self.fields = cls, tuple(args), fields or {}

    def __repr__(self):
        return "<exc %s>" % (self.cls,)


class TypeOf:
    def __init__(self, v):
        self.v = v


class Poison:
    def __init__(self, why):
        self.why = why


class Opaque:
    """A value nothing is known about and nothing may be decided on."""

    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return "<opaque %s>" % self.why


# ---------------------------------------------------------------- names
_ctr = [0]


def fresh_name(p):
    _ctr[0] += 1
    return "%s!%d" % (p, _ctr[0])


def name_mark():
    return _ctr[0]


def name_reset(n):
    _ctr[0] = n


def fresh(t, p="v"):
    if t == NONE:
        return None
    return SV(t, [z3.Const(fresh_name(p), s) for s in t.sorts])


def fconst(sort, p="c"):
    return z3.Const(fresh_name(p), sort)


def subst(e, pairs):
    if not isinstance(e, z3.ExprRef):
        return e
    return z3.substitute(e, *pairs) if pairs else e


# ---------------------------------------------------------------- simplification
def simp(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def zb(e):
    return z3.BoolVal(e) if isinstance(e, bool) else e


def And(*a):
    out = []
    for x in a:
        if x is True or (not isinstance(x, bool) and z3.is_true(x)):
            continue
        if x is False or (not isinstance(x, bool) and z3.is_false(x)):
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*a):
    out = []
    for x in a:
        if x is False or (not isinstance(x, bool) and z3.is_false(x)):
            continue
        if x is True or (not isinstance(x, bool) and z3.is_true(x)):
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(a):
    if isinstance(a, bool):
        return not a
    if z3.is_true(a):
        return False
    if z3.is_false(a):
        return True
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    return a == b


def Ite(c, a, b):
    """z3 if-then-else over expressions (c may be a python bool)."""
    if c is True or (not isinstance(c, bool) and z3.is_true(c)):
        return a
    if c is False or (not isinstance(c, bool) and z3.is_false(c)):
        return b
    if isinstance(a, bool):
        a = z3.BoolVal(a)
    if isinstance(b, bool):
        b = z3.BoolVal(b)
    if z3.eq(a, b):
        return a
    return z3.If(c, a, b)


def term_eq(a, b):
    """a == b, decided syntactically where possible."""
    if z3.eq(a, b):
        return True
    r = z3.simplify(a == b)
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return r


def known_by(a, n):
    """The reference existed when n names had been made."""
    n = z3.IntVal(n)
    return simp(z3.Or(Ref.is_Old(a), z3.And(Ref.is_New(a), Ref.nid(a) <= n),
                      z3.And(Ref.is_Alloc(a), Ref.site(a) <= n)))


def dummy0(s):
    return z3.BoolVal(False) if s == z3.BoolSort() else z3.IntVal(0)


# ---------------------------------------------------------------- field maps
def nonneg(e):
    return z3.If(e >= 0, e, z3.IntVal(0))


class FieldMap:
    """A total map from argument terms to components, as a base plus updates."""
    __slots__ = ("name", "argsorts", "t", "base", "ups", "havoced", "epoch", "memo")

    def __init__(self, name, argsorts, t, base, ups=(), havoced=False):
        self.epoch = None
        self.memo = {}
        self.name, self.argsorts, self.t = name, tuple(argsorts), t
        self.base, self.ups, self.havoced = base, tuple(ups), havoced

    @staticmethod
    def uf(name, argsorts, t, old_only=None, havoced=False, old_result=True):
        """Uninterpreted base.  Ref components of an initial base are Old
        (nothing not yet allocated is reachable); old_only gives the value at
        arguments of sort Ref which are not Old."""
        cs = []
        for i, s in enumerate(t.sorts):
            if s == Ref and not havoced and old_result:
                f = z3.Function(fresh_name(name + ".%d" % i), *argsorts, I)
                cs.append(lambda a, f=f: Ref.Old(f(*a) if a else f()))
            else:
                f = z3.Function(fresh_name(name + ".%d" % i), *argsorts, s)
                if name.startswith(("cnt:", "len:")):
                    cs.append(lambda a, f=f: nonneg(f(*a) if a else f()))
                    continue
                cs.append(lambda a, f=f: f(*a) if a else f())

        def base(args):
            v = [c(args) for c in cs]
            if old_only is not None:
                g = And(*[Ref.is_Old(a) for a in args if a.sort() == Ref])
                v = [Ite(g, x, d) for x, d in zip(v, old_only)]
            return v
        return FieldMap(name, argsorts, t, base, (), havoced)

    def read(self, args):
        args = tuple(args)
        assert len(args) == len(self.argsorts), (self.name, args)
        k = tuple([a.get_id() for a in args])
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = (args, self.read_(args))
        return r[1]

    def read_(self, args):
        # from the latest update backwards, stop at a certain one
        pend = []
        cs = None
        for g, v in reversed(self.ups):
            c = g(args)
            if c is False or (not isinstance(c, bool) and z3.is_false(c)):
                continue
            if c is True or (not isinstance(c, bool) and z3.is_true(c)):
                cs = list(v(args))
                break
            pend.append((c, v))
        if cs is None:
            cs = list(self.base(args))
        for c, v in reversed(pend):
            n = v(args)
            cs = [Ite(c, a, b) for a, b in zip(n, cs)]
        return SV(self.t, cs)

    def upd(self, guard, val):
        r = FieldMap(self.name, self.argsorts, self.t, self.base,
                     self.ups + ((guard, val),), self.havoced)
        r.epoch = self.epoch
        return r

    def put(self, idx, cs):
        idx = tuple(idx)
        cs = tuple(cs)
        return self.upd(Point(idx), Const(cs))

    def havoc(self, guard=None, epoch=None):
        """Unknown contents (where the guard holds).  Nothing allocated after
        the epoch can be in there."""
        f = FieldMap.uf(self.name.rstrip("~") + "~", self.argsorts, self.t, havoced=True)
        if epoch is not None and self.name.startswith(("cnt:", "len:", "has:")) and \
                any(s == Ref for s in self.argsorts):
            f0 = f
            zero = dummy0(self.t.sorts[0])

            def base(args):
                g = And(*[known_by(a, epoch) for a in args if a.sort() == Ref])
                return [Ite(g, f0.base(args)[0], zero)]
            f = FieldMap(f.name, f.argsorts, f.t, base, (), True)
        f.epoch = epoch
        if guard is None:
            return f
        r = self.upd(guard, lambda a: f.read(a).cs)
        r.epoch = epoch
        return r

    def __repr__(self):
        return "<fm %s +%d>" % (self.name, len(self.ups))


class Point:
    def __init__(self, idx):
        self.idx = idx

    def __call__(self, args):
        return And(*[term_eq(a, b) for a, b in zip(args, self.idx)])


class AppendPt(Point):
    """The update of a list's counts by one append."""

    def __init__(self, idx, nown):
        Point.__init__(self, idx)
        self.nown = nown


class AppendLen(Point):
    pass


class Const:
    def __init__(self, cs):
        self.cs = cs

    def __call__(self, args):
        return self.cs


class Univ:
    """A universally quantified fact: fn(*terms) for terms of the sorts (and,
    of references, of the classes where they are given)."""
    __slots__ = ("sorts", "fn", "name", "cls", "snames")

    def __init__(self, sorts, fn, name="", cls=None):
        self.sorts, self.fn, self.name = tuple(sorts), fn, name
        self.snames = tuple([str(s) for s in self.sorts])
        self.cls = tuple(cls) if cls else (None,) * len(self.sorts)


def t_classes(t):
    """The class of each component of a value of type t, None if it is no reference."""
    if t.name.startswith("opt:"):
        return (None,) + (t_classes(t.elem) if t.elem is not None and t.elem != NONE else ())
    if t.name.startswith("ref:"):
        return (t.cls,)
    return (None,) * len(t.sorts)


class Event:
    def __init__(self, kind, args, guard=True, snap=None, bulk=None):
        self.kind, self.args, self.guard, self.snap, self.bulk = kind, args, guard, snap, bulk

    def __repr__(self):
        return "<ev %s %s>" % (self.kind, self.args)


class ListRec:
    """Contents of a list family.  conc: python list of values (idx is ()),
    else the counts are in fields cnt:<lid>/len:<lid>."""
    __slots__ = ("elem", "conc", "nidx", "order", "keys")

    def __init__(self, elem, conc=None, nidx=0, order=None):
        self.elem, self.conc, self.nidx, self.order = elem, conc, nidx, order

    def copy(self):
        r = ListRec(self.elem, None if self.conc is None else list(self.conc), self.nidx, self.order)
        return r


class DictRec:
    """conc: ordered list of (key, value) with concrete keys, else fields
    has:<did>, val:<did> (values of list type are owned lists val:<did>)."""
    __slots__ = ("t", "conc", "nidx", "epoch")

    def __init__(self, t, conc=None, nidx=0):
        self.t, self.conc, self.nidx, self.epoch = t, conc, nidx, 0

    def copy(self):
        r = DictRec(self.t, None if self.conc is None else dict(self.conc), self.nidx)
        r.epoch = self.epoch
        return r


class ObjRec:
    __slots__ = ("cls", "fields")

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

    def copy(self):
        return ObjRec(self.cls, dict(self.fields))


class State:
    def __init__(self):
        self.fm = {}
        self.objs = {}
        self.lists = {}
        self.dicts = {}
        self.facts = []          # z3 booleans (path condition and instances)
        self.tags = []           # 'b'ranch, 'a'ssumption, 'i'nstance per fact
        self.univ = []
        self.terms = {}          # sort name -> list of terms
        self.termkeys = set()
        self.tcls = {}
        self.events = []
        self.ghost = {}
        self.prov = {}
        self.locals = {}         # frame id -> local variables
        self.writes = None       # written locations while tracking
        self.reads = None
        self.allocs = []
        self.done_insts = set()

    def clone(self):
        s = State.__new__(State)
        s.fm = dict(self.fm)
        s.objs = {k: v.copy() for k, v in self.objs.items()}
        s.lists = {k: v.copy() for k, v in self.lists.items()}
        s.dicts = {k: v.copy() for k, v in self.dicts.items()}
        s.facts = list(self.facts)
        s.tags = list(self.tags)
        s.univ = list(self.univ)
        s.terms = {k: list(v) for k, v in self.terms.items()}
        s.termkeys = set(self.termkeys)
        s.tcls = dict(self.tcls)
        s.events = list(self.events)
        s.ghost = dict(self.ghost)
        s.prov = dict(self.prov)
        s.writes = None if self.writes is None else list(self.writes)
        s.done_insts = self.done_insts.copy()
        s.locals = {k: dict(v) for k, v in self.locals.items()}
        s.reads = None if self.reads is None else list(self.reads)
        s.allocs = list(self.allocs)
        return s

    def frozen(self):
        """The contents as they are now; facts learnt by reading them are
        shared with this state."""
        s = State.__new__(State)
        s.__dict__.update(self.__dict__)
        s.fm = dict(self.fm)
        s.objs = {k: v.copy() for k, v in self.objs.items()}
        s.lists = {k: v.copy() for k, v in self.lists.items()}
        s.dicts = {k: v.copy() for k, v in self.dicts.items()}
        s.events = list(self.events)
        s.ghost = dict(self.ghost)
        s.locals = {k: dict(v) for k, v in self.locals.items()}
        s.writes = s.reads = None
        return s

    # ---- facts
    def assume(self, e, tag="a"):
        if e is True:
            return
        self.facts.append(zb(e))
        self.tags.append(tag)

    def assume_all(self, sorts, fn, name="", cls=None):
        u = Univ(sorts, fn, name, cls)
        self.univ.append(u)
        self._inst(u)

    def add_term(self, e, cls=None):
        e._vid = e.get_id()
        k = (e.sort().get_id(), e._vid)
        if cls is None:
            for c in e.children() if z3.is_app(e) and e.decl().name() == "if" else ():
                cls = cls or self.tcls.get(c.get_id())
        if cls is not None:
            self.tcls[e._vid] = cls
        if k in self.termkeys:
            return
        self.termkeys.add(k)
        self.prov[("keep", k)] = e
        sn = str(e.sort())
        self.terms.setdefault(sn, []).append(e)
        for u in list(self.univ):
            if sn in u.snames:
                self._inst(u, e)

    def fits(self, e, cls):
        c = self.tcls.get(e._vid)
        return c is None or cls is None or c == cls

    def _inst(self, u, must=None):
        pools = []
        for s, cl in zip(u.snames, u.cls):
            p = self.terms.get(s, [])
            if cl is not None:
                p = [x for x in p if self.fits(x, cl)]
            if not p:
                return
            pools.append(p)
        if must is None:
            combos = [itertools.product(*pools)]
        else:
            combos = []
            for i, p in enumerate(pools):
                if any(x is must for x in p):
                    combos.append(itertools.product(*(pools[:i] + [[must]] + pools[i + 1:])))
        for tup in itertools.chain(*combos):
            key = (id(u), tuple([x._vid for x in tup]))
            if key in self.done_insts:
                continue
            self.done_insts.add(key)
            f = u.fn(*tup)
            if f is True or (not isinstance(f, bool) and z3.is_true(f)):
                continue
            self.assume(f, "i")


