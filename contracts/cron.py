"""Hashed cron expressions, and the next time of a schedule."""
import z3

from pyvc.core import *
from pyvc.core import And, Or, Not, Implies, Iff, Ite, term_eq, simp
from pyvc.exec import norm
from pyvc.contract import Contract, All, Ex, View
from pyvc.rx import digits, dnum, language

# croniter's ranges: minute, hour, day of month, month, day of week, second, year
RANGES = ((0, 59), (0, 23), (1, 31), (1, 12), (0, 6), (0, 59), (1970, 2099))
itext = z3.Function("str.int", I, S)


def lo_of(p):
    return pick(p, 0)


def hi_of(p):
    return pick(p, 1)


def pick(p, k):
    if isinstance(p, int):
        return z3.IntVal(RANGES[p][k])
    r = z3.IntVal(RANGES[-1][k])
    for i in range(len(RANGES) - 2, -1, -1):
        r = z3.If(p == i, z3.IntVal(RANGES[i][k]), r)
    return r


def ranges(ex, o):
    return RANGES


def free(e, out=None, seen=None):
    """Free constants of a term."""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if not isinstance(e, z3.ExprRef) or e.get_id() in seen:
        return out
    seen.add(e.get_id())
    if z3.is_app(e):
        if e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(e.decl().name())
        for ch in e.children():
            free(ch, out, seen)
    return out


def given(c):
    """Names of the constants the arguments are made of."""
    out = set()
    for v in c.L.values():
        if isinstance(v, SV):
            for x in v.cs:
                free(x, out)
    return out


def determined(c, v, by=None):
    """The value depends on the arguments only: neither it nor the choice of
    the path to it mentions anything else."""
    ok = given(c) if by is None else by
    st = c.new.st
    ok = ok | {n for e in c.new.st.facts for n in free(e) 
               if n.split("!")[0] in ("cron_bad", "rrule_bad", "until_time", "until_date") or n.startswith("avail:")}
    names = set()
    for x in (v.cs if isinstance(v, SV) else ()):
        free(x, names)
    n0 = len(c.old.st.facts)
    for t, fct in list(zip(st.tags, st.facts))[n0:]:
        if t == "b":
            free(fct, names)
    if not names <= ok and __import__("os").environ.get("VC_TRACE"):
        print("not determined:", names - ok)
    return z3.BoolVal(names <= ok)


def cron_self(ex):
    st = ex.st
    st.objs["cron"] = ObjRec(ex.prog.names["dsari.croniter_hash"]["croniter_hash"], {})
    return ObjRef("cron")


# what a hash of a job's name comes to: the position and the range decide
hashed = z3.Function("hashed", S, I, I, I, I)


class HashDo(Contract):
    qual = "dsari.croniter_hash.croniter_hash._hash_do"
    props = ("C12",)
    externs = {"attr:croniter.croniter.RANGES": ranges}
    ht = "H"

    def setup(self, ex):
        return {"self": cron_self(ex), "id": fresh(STR, "name"), "position": fresh(INT, "position"),
                "range_end": fresh(OptT(INT), "end"), "range_begin": fresh(OptT(INT), "begin"), "hash_type": self.ht}

    def lohi(self, c):
        ex = c.ex
        p = ex.coerce(c["position"], INT).e
        b, e = ex.coerce(c["range_begin"], OptT(INT)), ex.coerce(c["range_end"], OptT(INT))
        return (Ite(And(b.cs[0], b.cs[1] != 0), b.cs[1], lo_of(p)), Ite(e.cs[0], e.cs[1], hi_of(p)),
                Ite(b.cs[0], b.cs[1], lo_of(p)))

    def requires(self, c):
        p = c.ex.coerce(c["position"], INT).e
        yield ("C12",), "one of croniter's fields", And(p >= 0, p <= 6)
        b, e = c["range_begin"], c["range_end"]
        if b is not None:
            b = c.ex.coerce(b, OptT(INT))
            yield ("C12",), "the range begins at a number", Implies(b.cs[0], b.cs[1] >= 0)

    def raises(self, c):
        lo, hi, _ = self.lohi(c)
        return [(ZeroDivisionError, hi - lo + 1 == 0)]

    def returns(self, c):
        ex = c.ex
        v = fresh(INT, "hashed")
        if c["hash_type"] == "H":
            lo, hi, b = self.lohi(c)
            v = SV(INT, [hashed(ex.coerce(c["id"], STR).e, ex.coerce(c["position"], INT).e, lo, hi)])
        return v

    def ensures(self, c):
        ex = c.ex
        r = ex.coerce(c.ret, INT).e
        lo, hi, b = self.lohi(c)
        yield ("C12",), "a value of the given range, of the field's where it is open", Implies(
            lo <= hi, And(r >= lo, r <= hi, r >= b))
        if ex.root == self.qual and self.ht == "H":
            yield ("C12",), "depends on the name, the field and the range only", determined(c, c.ret)


class HashDoRandom(HashDo):
    ht = "R"


ITEM_RX = [r"(H|R)", r"(H|R)\(\d+-\d+\)/\d+", r"(H|R)\(\d+-\d+\)", r"(H|R)/\d+"]


def digit_atom(ex, name):
    n = fconst(I, name)
    ex.st.assume(And(dnum(n) >= 0, z3.InRe(digits(n), z3.Plus(z3.Range("0", "9")))))
    return digits(n), dnum(n)


# what an item stands for: a text depending on name, item and position (H)
expand = z3.Function("cron.expand", S, S, I, S)


class HashItem(Contract):
    """The shapes of an item are verified one by one."""
    qual = "dsari.croniter_hash.croniter_hash._hash_expand_item"
    props = ("C12",)
    externs = {"attr:croniter.croniter.RANGES": ranges}
    shape = None
    kind = "H"

    def setup(self, ex):
        a = b = s = None
        k = self.kind
        if self.shape == "plain":
            item = k
        elif self.shape == "other":
            item = fresh(STR, "item")
            for r in ITEM_RX:
                ex.st.assume(Not(z3.InRe(item.e, language("^" + r + "$", "match"))))
        else:
            parts = [z3.StringVal(k)]
            if "range" in self.shape:
                at, a = digit_atom(ex, "a")
                bt, b = digit_atom(ex, "b")
                parts += [z3.StringVal("("), at, z3.StringVal("-"), bt, z3.StringVal(")")]
            if "step" in self.shape:
                stx, s = digit_atom(ex, "step")
                parts += [z3.StringVal("/"), stx]
            item = SV(STR, [z3.Concat(*parts)])
        self.abs = (a, b, s)
        return {"self": cron_self(ex), "item": item, "id": fresh(STR, "name"), "idx": fresh(INT, "idx")}

    def cases(self, ex, L):
        # one of the fields at a time
        any(ex.decide(L["idx"].e == k) for k in range(7))

    def requires(self, c):
        i = c.ex.coerce(c["idx"], INT).e
        yield ("C12",), "one of croniter's fields", And(i >= 0, i <= 6)

    def raises(self, c):
        if c.ex.root != self.qual:
            return [(ZeroDivisionError, True)]
        a, b, s = self.abs
        i = c.ex.coerce(c["idx"], INT).e
        lo = lo_of(i) if a is None else Ite(a != 0, a, lo_of(i))
        hi = hi_of(i) if b is None else b
        if s is not None:
            hi = z3.If((lo_of(i) if a is None else a) + s - 1 < hi, (lo_of(i) if a is None else a) + s - 1, hi)
        return [(ZeroDivisionError, hi < lo)]

    def returns(self, c):
        ex = c.ex
        it = c["item"]
        r = fresh(STR, "field")
        if isinstance(it, str) and it[:1] == "R":
            return r
        return SV(STR, [expand(ex.coerce(c["id"], STR).e, ex.coerce(it, STR).e, ex.coerce(c["idx"], INT).e)])

    def ensures(self, c):
        ex = c.ex
        if ex.root != self.qual:
            g = ex.st.ghost.get("fields", ())
            ex.st.ghost["fields"] = g + ((c["item"], c["id"], c["idx"], c.ret),)
            return
        sv, ex.st = ex.st, c.new.st
        try:
            r = ex.coerce(c.ret, STR).e
        finally:
            ex.st = sv
        if self.shape == "other":
            yield ("C12",), "any other field is left as it is", r == c["item"].e
            return
        i = ex.coerce(c["idx"], INT).e
        a, b, s = self.abs
        lo, hi = (lo_of(i), hi_of(i)) if a is None else (a, b)
        elo = lo if a is None else Ite(a != 0, a, lo_of(i))
        if s is None:
            end = hi
        else:
            end = z3.If(lo + s - 1 < hi, lo + s - 1, hi)
        ok = []
        for v in numbers(c, r):
            inr = And(v >= elo, v <= end, v >= lo, v <= hi)
            if s is None:
                ok.append(And(r == itext(v), inr))
            else:
                ht = itext(hi)
                if b is None:
                    ht = z3.StringVal(str(RANGES[-1][1]))
                    for k in range(len(RANGES) - 2, -1, -1):
                        ht = z3.If(i == k, z3.StringVal(str(RANGES[k][1])), ht)
                text = z3.Concat(itext(v), z3.StringVal("-"), ht, z3.StringVal("/"), itext(s))
                ok.append(And(inr, r == Ite(v == hi, itext(v), text)))
        what = {"plain": "H alone is a value of the field's range", "range": "a subrange gives a value in it",
                "step": "a step starts within the first step and goes to the end of the field",
                "range step": "a stepped subrange starts within its first step and goes to its end"}[self.shape]
        yield ("C12",), what, Implies(elo <= end, Or(*ok))
        if self.kind == "H":
            yield ("C12",), "depends on the name, the field and the item only", determined(c, SV(STR, [r]))


def numbers(c, r):
    """The integers whose text occurs in a string, and the hashed values met."""
    out, seen = [], set()

    def walk(e):
        if e.get_id() in seen:
            return
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().name() == "str.int":
                out.append(e.arg(0))
            for x in e.children():
                walk(x)
    walk(r)
    return out


def variant(base, name, **kw):
    return type(name, (base,), kw)


ITEMS = [variant(HashItem, "HashItem" + k + "".join(w.title() for w in s.split()), shape=s, kind=k)
         for s in ("plain", "range", "step", "range step") for k in "HR"] + [variant(HashItem, "HashItemOther", shape="other")]


ALIASES = {"@midnight": "H H(0-2) * * * H", "@hourly": "H * * * * H", "@daily": "H H * * * H",
           "@weekly": "H H * * H H", "@monthly": "H H H * * H", "@yearly": "H H H H * H", "@annually": "H H H H * H"}


def split_fields(ex, f, a, kw):
    """The fields of an expression of at most seven: croniter takes no others."""
    r = f.recv
    if isinstance(r, str):
        return ex.new_list(r.split(*a))
    if a != [" "] or kw:
        raise Unsupported("split")
    e = ex.coerce(r, STR).e
    n = ex.pick(7) + 1
    at = z3.Function("field.of", S, I, S)
    k = z3.Function("fields.of", S, I)
    ex.st.assume(k(e) == n, "b")
    ps = [at(e, z3.IntVal(i)) for i in range(n)]
    whole = [z3.StringVal(" ")] * (2 * n - 1)
    whole[::2] = ps
    ex.st.assume(e == (z3.Concat(*whole) if n > 1 else ps[0]))
    for p in ps:
        ex.st.assume(Not(z3.Contains(p, z3.StringVal(" "))))
    return ex.new_list([SV(STR, [p]) for p in ps])


class HashExpand(Contract):
    qual = "dsari.croniter_hash.croniter_hash._hash_expand"
    props = ("C12",)
    externs = {"str.split": split_fields}

    def setup(self, ex):
        e = fresh(STR, "expr")
        return {"self": cron_self(ex), "expr_format": e, "id": fresh(STR, "name")}

    def raises(self, c):
        return [(ZeroDivisionError, True)]

    def returns(self, c):
        ex = c.ex
        return SV(STR, [z3.Function("cron.hash_expand", S, S, S)(ex.coerce(c["expr_format"], STR).e,
                                                                ex.coerce(c["id"], STR).e)])

    def ensures(self, c):
        ex = c.ex
        if ex.root != self.qual:
            return
        st = c.new.st
        fs = st.ghost.get("fields", ())
        e = c["expr_format"].e
        sv, ex.st = ex.st, st
        try:
            r = ex.coerce(c.ret, STR).e
            # an alias, or the expression's own fields
            alias = [(a, x.split(" ")) for a, x in ALIASES.items()]
            goals = []
            at = z3.Function("field.of", S, I, S)
            k = z3.Function("fields.of", S, I)
            made = [(ex.coerce(it, STR).e, ex.coerce(nm, STR).e, ex.coerce(ix, INT).e, ex.coerce(v, STR).e)
                    for it, nm, ix, v in fs]

            def expands(src):
                """The result is the expansion, field by field in order, of the items."""
                if len(made) != len(src):
                    return z3.BoolVal(False)
                out = []
                g = []
                for i, (m, s) in enumerate(zip(made, src)):
                    g += [m[0] == s, m[1] == c["id"].e, m[2] == i]
                    out += [m[3], z3.StringVal(" ")]
                out = out[:-1]
                return And(*g, r == (z3.Concat(*out) if len(out) > 1 else out[0]))
            for a, x in alias:
                goals.append((("C12",), "%s stands for %s" % (a, ALIASES[a]), Implies(
                    e == z3.StringVal(a), expands([z3.StringVal(y) for y in x]))))
            isalias = Or(*[e == z3.StringVal(a) for a in ALIASES])
            goals.append((("C12",), "every field is expanded at its own position", Implies(Not(isalias), expands(
                [at(e, z3.IntVal(i)) for i in range(len(made))]))))
            goals.append((("C12",), "no field is dropped or added", Implies(Not(isalias), k(e) == len(made))))
        finally:
            ex.st = sv
        yield from goals


UNITS = [HashDo, HashDoRandom] + ITEMS + [HashExpand]


# ------------------------------------------------------------------ the next time of a schedule
from .sched import GetNextScheduleTime          # noqa: E402

DAY = 86400
UNTIL = r"(?<=UNTIL=)(\d{8})(T\d{6})?(?=;|\s|$)"
until_local = z3.Function("rrule.until_in", S, I, S)    # local end times of a recurrence, taken in a timezone
rr_some = z3.Function("rrule.some", S, R, R, B)
rr_next = z3.Function("rrule.next", S, R, R, R)
wall_in = z3.Function("wall.in", R, I, R)
wall_of = z3.Function("wall.parsed", S, S, R)
cr_some = z3.Function("cron.some", S, R, I, B)
cr_next = z3.Function("cron.next", S, R, I, R)
n_fields = z3.Function("fields.of", S, I)
crc_of = z3.Function("crc32", I, I)
enc_of = z3.Function("str.encode", S, I)
upper = z3.Function("str.upper", S, S)


def resub(ex, f, a, kw):
    """re.sub of the local end times of a recurrence: what is put in place of
    one is checked for any of them."""
    pat, rep, s = a[0], a[1], ex.coerce(a[2], STR)
    if pat != UNTIL or kw or len(a) > 3:
        raise Unsupported("re.sub with %r" % (pat,))
    d, t = fresh(STR, "until_date"), fresh(OptT(STR), "until_time")
    m = ExtV("untilmatch", (d, t))
    v = ex.coerce(ex.call(rep, [m], {}), STR)
    ex.st.events.append(Event("resub", (s, d, t, v)))
    tz = ex.st.ghost.get("start_tz")
    return SV(STR, [until_local(s.e, tz)])


def until_group(ex, f, a, kw):
    d, t = f.recv.recv if isinstance(f.recv, ExtV) else f.recv
    return norm({1: d, 2: t}[a[0]])


def strptime(ex, f, a, kw):
    return SV(NDT, [wall_of(ex.coerce(a[0], STR).e, ex.coerce(a[1], STR).e)])


def rrulestr(ex, f, a, kw):
    ds = ex.coerce(ex.unopt(kw["dtstart"]), DT)
    if ex.maybe("rrule_bad"):
        ex.raise_(ValueError)
    return ExtV("rrule", (ex.coerce(a[0], STR), ds))


def rr_after(ex, f, a, kw):
    s, ds = f.recv.recv if isinstance(f.recv, ExtV) else f.recv
    t = ex.coerce(ex.unopt(a[0]), DT)
    inc = kw.get("inc", a[1] if len(a) > 1 else False)
    ex.st.events.append(Event("rrule", (s, ds, t)))
    if ex.decide(ex.truth(inc)):
        n = z3.Function("rrule.at_or_next", S, R, R, R)(s.e, ds.cs[0], t.cs[0])
        ex.st.assume(n >= t.cs[0])
        return norm(SV(OptT(DT), [z3.Function("rrule.some_at", S, R, R, B)(s.e, ds.cs[0], t.cs[0]), n, ds.cs[1]]))
    n = rr_next(s.e, ds.cs[0], t.cs[0])
    some = rr_some(s.e, ds.cs[0], t.cs[0])
    ex.st.assume(Implies(some, n > t.cs[0]))
    return norm(SV(OptT(DT), [some, n, ds.cs[1]]))


def cron_init(ex, f, a, kw):
    """croniter(expr, start_time)"""
    names = ["expr_format", "start_time"]
    L = dict(zip(names, a))
    L.update(kw)
    if set(L) - set(names):
        ex.raise_(TypeError)
    if ex.maybe("cron_bad"):
        ex.raise_(ValueError)
    ex.st.objs[f.recv.addr].fields["~expr"] = ex.coerce(L["expr_format"], STR)
    ex.st.objs[f.recv.addr].fields["~start"] = ex.unopt(L.get("start_time"))
    return None


def cron_next(ex, f, a, kw):
    """The first time after the start which matches the expression."""
    o = ex.st.objs[f.recv.addr].fields
    t = ex.coerce(o["~start"], DT)
    s = o["~expr"]
    ex.st.events.append(Event("cron", (s, t)))
    some = cr_some(s.e, *t.cs)
    if not ex.decide(some):
        ex.raise_(ex.ext_attr("croniter", "CroniterBadDateError"))
    n = cr_next(s.e, *t.cs)
    ex.st.assume(n > t.cs[0])
    return SV(DT, [n, t.cs[1]])


def split_count(ex, f, a, kw):
    """Only how many fields there are."""
    if a != [" "] or kw:
        raise Unsupported("split")
    return SV(OpaqueT("fieldlist"), [z3.Function("str.split", S, S, I)(ex.coerce(f.recv, STR).e, z3.StringVal(" "))])


def fieldlist_len(ex, v):
    e = v.e
    return SV(INT, [n_fields(e.arg(0))])


UTC_TZ = z3.Const("tz!utc", I)


class NextScheduleTime(GetNextScheduleTime):
    props = ("C13", "C12")
    externs = {"re.sub": resub, "untilmatch.group": until_group, "datetime.datetime.strptime": strptime,
               "dateutil.rrule.rrulestr": rrulestr, "rrule.after": rr_after, "croniter.croniter.__init__": cron_init,
               "croniter.croniter.get_next": cron_next, "str.split": split_count, "len:fieldlist": fieldlist_len,
               "attr:datetime.timezone.utc": lambda ex, o: SV(TZ, [UTC_TZ])}

    def setup(self, ex):
        st = fresh(DT, "start")
        ex.st.ghost["start_tz"] = st.cs[1]
        return {"schedule": fresh(STR, "schedule"), "job_name": fresh(STR, "name"), "start_time": st}

    def raises(self, c):
        return [(ValueError, True), (ZeroDivisionError, True), (ImportError, True)] if c.ex.root == self.qual else []

    def ensures(self, c):
        ex = c.ex
        if ex.root != self.qual:
            return
        st = c.new.st
        sv, ex.st = ex.st, st
        try:
            r = ex.coerce(c.ret, OptT(DT))
        finally:
            ex.st = sv
        sch, name, t = c["schedule"].e, c["job_name"].e, c["start_time"]
        t0, tz = t.cs
        crc = crc_of(enc_of(name))
        off = z3.ToReal(crc) / z3.RealVal(0xFFFFFFFF)
        ev = [e for e in st.events if e.kind in ("rrule", "cron")]
        rec = z3.PrefixOf(z3.StringVal("RRULE:"), upper(sch))
        yield ("C13",), "the next time is after the start", Implies(r.cs[0], r.cs[1] > t0)
        yield ("C13",), "the same on every computation", determined(c, r)
        if len(ev) != 1:
            yield ("C13",), "one next time is asked for", z3.BoolVal(False)
            return
        e = ev[0]
        if e.kind == "rrule":
            s, ds, at = e.args
            yield ("C13",), "a recurrence is an RRULE", rec
            yield ("C13",), "times after the start are asked for", And(*[x == y for x, y in zip(at.cs, t.cs)])
            yield ("C13",), "the recurrence's rule is used, its local end time in the start's timezone", \
                Or(s.e == until_local(upper(sch), tz))
            q = (ds.cs[0] - z3.ToReal(crc)) / DAY
            yield ("C13",), "the anchor's time of day depends on the job name only", \
                ds.cs[0] == z3.ToReal(crc) + DAY * z3.ToReal(z3.ToInt(q))
            yield ("C13",), "the anchor is within the day before the start", And(ds.cs[0] <= t0, t0 - ds.cs[0] < DAY)
            yield ("C13",), "the first occurrence after the start, with the name's offset", Iff(
                r.cs[0], rr_some(s.e, ds.cs[0], t0))
            yield ("C13",), "the first occurrence after the start, with the name's offset", Implies(
                r.cs[0], r.cs[1] == rr_next(s.e, ds.cs[0], t0) + off)
            for x in [x for x in st.events if x.kind == "resub"]:
                _, d, tm, v = x.args
                text = z3.Concat(d.e, z3.If(tm.cs[0], tm.cs[1], z3.StringVal("T000000")))
                w = wall_in(wall_of(text, z3.StringVal("%Y%m%dT%H%M%S")), tz)
                # an empty time does not match the pattern
                yield ("C13",), "a local end time is taken in the start's timezone, midnight if it has no time", Implies(
                    Or(Not(tm.cs[0]), tm.cs[1] != z3.StringVal("")),
                    v.e == z3.Function("strftime.dt", R, I, S, S)(w, UTC_TZ, z3.StringVal("%Y%m%dT%H%M%SZ")))
        else:
            s, at = e.args
            yield ("C13",), "a recurrence is an RRULE", Not(rec)
            yield ("C13",), "times after the start are asked for", And(*[x == y for x, y in zip(at.cs, t.cs)])
            full = Ite(n_fields(sch) == 5, z3.Concat(sch, z3.StringVal(" H")), sch)
            hx = z3.Function("cron.hash_expand", S, S, S)
            yield ("C13", "C12"), "five fields get a hashed seconds field, and H is hashed by the job's name", \
                s.e == Ite(name == z3.StringVal(""), full, hx(full, name))
            yield ("C13",), "the first matching time after the start, with the name's offset", Iff(
                r.cs[0], cr_some(s.e, t0, tz))
            yield ("C13",), "the first matching time after the start, with the name's offset", Implies(
                r.cs[0], r.cs[1] == cr_next(s.e, t0, tz) + off)
        yield ("C13",), "an offset of at most one second", And(off >= 0, off <= 1)


UNITS += [NextScheduleTime]
