"""Regular expressions over partly known strings.

A string made of literal parts and atoms is matched exactly, as re does it; an
atom is a non-empty run of ASCII digits, written digits(n).  Any other string
either matches, with groups of which only the decomposition is known, or not.
"""
import re

import z3

from .core import *
from .core import And, Or, Not, Implies, term_eq, simp
from .exec import *
from .externs import ext, X

try:
    import re._parser as sp
    import re._constants as sc
except ImportError:
    import sre_parse as sp
    import sre_constants as sc

digits = z3.Function("digits", I, S)            # the text of a number, leading zeros or not
dnum = z3.Function("digits.num", I, I)          # the number


class Part(Exception):
    pass


def flat(e):
    """Parts of a string: characters and other terms."""
    if z3.is_string_value(e):
        return list(e.as_string())
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [x for c in e.children() for x in flat(c)]
    return [e]


def is_digits(t):
    return not isinstance(t, str) and z3.is_app(t) and t.decl().name() == "digits"


def known(parts):
    return all(isinstance(t, str) or is_digits(t) for t in parts)


def build(parts):
    out, cur = [], ""
    for t in parts:
        if isinstance(t, str):
            cur += t
        else:
            if cur:
                out.append(z3.StringVal(cur))
                cur = ""
            out.append(t)
    if cur:
        out.append(z3.StringVal(cur))
    if not out:
        return ""
    if len(out) == 1:
        return out[0].as_string() if z3.is_string_value(out[0]) else SV(STR, [out[0]])
    return SV(STR, [z3.Concat(*out)])


def in_set(items, ch):
    neg = False
    ok = False
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            ok = ok or ord(ch) == av
        elif op is sc.RANGE:
            ok = ok or av[0] <= ord(ch) <= av[1]
        elif op is sc.CATEGORY:
            ok = ok or category(av, ch)
        else:
            raise Unsupported("regular expression set %s" % op)
    return ok != neg


def category(av, ch):
    p = {sc.CATEGORY_DIGIT: r"\d", sc.CATEGORY_NOT_DIGIT: r"\D", sc.CATEGORY_SPACE: r"\s",
         sc.CATEGORY_NOT_SPACE: r"\S", sc.CATEGORY_WORD: r"\w", sc.CATEGORY_NOT_WORD: r"\W"}[av]
    return re.fullmatch(p, ch) is not None


def one(op, av, ch):
    """Does the single-character element match the character?"""
    if op is sc.LITERAL:
        return ord(ch) == av
    if op is sc.NOT_LITERAL:
        return ord(ch) != av
    if op is sc.ANY:
        return ch != "\n"
    if op is sc.IN:
        return in_set(av, ch)
    return None


def takes_digits(op, av):
    r = {one(op, av, c) for c in "0123456789"}
    if r == {True}:
        return True
    if r == {False}:
        return False
    raise Part()


def match_at(seq, i, parts, pos, groups, k):
    """Backtracking match of seq[i:] at pos; k continues."""
    if i == len(seq):
        return k(pos, groups)
    op, av = seq[i]

    def rest(p, g):
        return match_at(seq, i + 1, parts, p, g, k)
    if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
        if pos >= len(parts):
            return None
        t = parts[pos]
        if isinstance(t, str):
            return rest(pos + 1, groups) if one(op, av, t) else None
        if takes_digits(op, av):
            raise Part()
        return None
    if op is sc.AT:
        if av is sc.AT_BEGINNING or av is sc.AT_BEGINNING_STRING:
            return rest(pos, groups) if pos == 0 else None
        if av is sc.AT_END:
            return rest(pos, groups) if pos == len(parts) or (pos == len(parts) - 1 and parts[pos] == "\n") else None
        if av is sc.AT_END_STRING:
            return rest(pos, groups) if pos == len(parts) else None
        raise Unsupported("regular expression anchor")
    if op is sc.SUBPATTERN:
        gid, add, dele, sub = av
        if add or dele:
            raise Unsupported("regular expression flags")

        def done(p, g):
            if gid is not None:
                g = dict(g)
                g[gid] = (pos, p)
            return rest(p, g)
        return match_at(list(sub), 0, parts, pos, groups, done)
    if op is sc.BRANCH:
        for alt in av[1]:
            r = match_at(list(alt), 0, parts, pos, groups, rest)
            if r is not None:
                return r
        return None
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
        lo, hi, sub = av
        sub = list(sub)
        greedy = op is sc.MAX_REPEAT

        def again(n, p, g):
            def more():
                if hi is not sc.MAXREPEAT and n >= hi:
                    return None
                if len(sub) == 1 and sub[0][0] in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN) and p < len(parts) and \
                        not isinstance(parts[p], str):
                    if not takes_digits(*sub[0]):
                        return None
                    if hi is not sc.MAXREPEAT or lo > 1 or not greedy:
                        raise Part()
                    return again(max(n + 1, lo), p + 1, g)
                return match_at(sub, 0, parts, p, g, lambda q, g2: again(n + 1, q, g2) if q > p or n < lo else None)
            if greedy:
                r = more()
                if r is not None:
                    return r
            if n >= lo:
                r = rest(p, g)
                if r is not None:
                    return r
            return None if greedy else more()
        return again(0, pos, groups)
    raise Unsupported("regular expression element %s" % op)


def to_re(seq):
    """The language, as a z3 expression (over ASCII for the categories)."""
    out = []
    for op, av in seq:
        out.append(elem(op, av))
    if not out:
        return z3.Re("")
    return out[0] if len(out) == 1 else z3.Concat(*out)


def elem(op, av):
    if op is sc.LITERAL:
        return z3.Re(chr(av))
    if op in (sc.NOT_LITERAL, sc.ANY, sc.IN):
        cs = [chr(c) for c in range(128) if one(op, av, chr(c))]
        hi = one(op, av, "\u0394")
        rs = []
        i = 0
        while i < len(cs):
            j = i
            while j + 1 < len(cs) and ord(cs[j + 1]) == ord(cs[j]) + 1:
                j += 1
            rs.append(z3.Range(cs[i], cs[j]))
            i = j + 1
        if hi and not (op is sc.IN and not any(o is sc.NEGATE for o, _ in av)):
            rs.append(z3.Range(chr(128), "\U0002ffff"))
        if not rs:
            return z3.Empty(z3.ReSort(S))
        return rs[0] if len(rs) == 1 else z3.Union(*rs)
    if op is sc.SUBPATTERN:
        if av[1] or av[2]:
            raise Unsupported("regular expression flags")
        return to_re(list(av[3]))
    if op is sc.BRANCH:
        return z3.Union(*[to_re(list(a)) for a in av[1]])
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
        lo, hi, sub = av
        r = to_re(list(sub))
        if hi is sc.MAXREPEAT:
            return z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else z3.Concat(*([r] * lo + [z3.Star(r)]))
        return z3.Option(r) if (lo, hi) == (0, 1) else z3.Loop(r, lo, hi)
    raise Unsupported("regular expression element %s" % op)


ANYS = z3.Full(z3.ReSort(S))


def language(pattern, how):
    """Strings in which it matches: whole (fullmatch), from the start (match), anywhere (search)."""
    seq = list(sp.parse(pattern))
    if how == "fullmatch":
        seq = [x for x in seq if x[0] is not sc.AT]
        return to_re(seq)
    parts = []
    if how == "search" and not (seq and seq[0] == (sc.AT, sc.AT_BEGINNING)):
        parts.append(ANYS)
    if seq and seq[0][0] is sc.AT:
        if seq[0][1] not in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            raise Unsupported("regular expression anchor")
        seq = seq[1:]
    tail = ANYS
    if seq and seq[-1][0] is sc.AT:
        tail = {sc.AT_END: z3.Option(z3.Re("\n")), sc.AT_END_STRING: None}.get(seq[-1][1], ANYS)
        seq = seq[:-1]
    if any(x[0] is sc.AT for x in seq):
        raise Unsupported("regular expression anchor")
    parts.append(to_re(seq))
    if tail is not None:
        parts.append(tail)
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def run(ex, how, pattern, s):
    """A match object or None."""
    if isinstance(s, str):
        m = getattr(re, how)(pattern, s)
        if m is None:
            return None
        return match_obj(ex, (m.group(0),) + m.groups(), m.groupdict())
    s = ex.coerce(ex.num_json(ex.unopt(s)), STR)
    parts = flat(z3.simplify(s.e))
    seq = list(sp.parse(pattern))
    ng = re.compile(pattern).groups
    names = re.compile(pattern).groupindex
    if known(parts):
        try:
            def done(p, g):
                if how == "fullmatch" and p != len(parts):
                    return None
                return (0, p, g)
            r = None
            for start in range(1 if how != "search" else len(parts) + 1):
                r = match_at(seq, 0, parts, start, {}, lambda p, g, st=start: None if how == "fullmatch" and
                             p != len(parts) else (st, p, g))
                if r is not None:
                    break
            if r is None:
                return None
            st, p, g = r
            gs = (build(parts[st:p]),) + tuple(build(parts[g[i][0]:g[i][1]]) if i in g else None
                                               for i in range(1, ng + 1))
            return match_obj(ex, gs, {k: gs[i] for k, i in names.items()})
        except Part:
            pass
    if not ex.decide(z3.InRe(s.e, language(pattern, how))):
        return None
    gs = [ex.fresh_str()] + [None] * ng
    top = [x for x in seq if x[0] is not sc.AT]
    ps, ok = [], how != "search"
    for op, av in top:
        v = ex.fresh_str()
        if op is sc.SUBPATTERN and av[0] is not None:
            gs[av[0]] = v
        ex.st.assume(z3.InRe(v.e, elem(op, av)))
        ps.append(v.e)
    if any(g is None for g in gs):
        raise Unsupported("groups of a regular expression")
    if ok:
        tail = ex.fresh_str()
        cat = z3.Concat(*(ps + [tail.e])) if ps else tail.e
        ex.st.assume(s.e == cat)
        end = seq[-1] if seq else None
        if how == "fullmatch" or end == (sc.AT, sc.AT_END_STRING):
            ex.st.assume(tail.e == z3.StringVal(""))
        elif end == (sc.AT, sc.AT_END):
            ex.st.assume(z3.Or(tail.e == z3.StringVal(""), tail.e == z3.StringVal("\n")))
    return match_obj(ex, tuple(gs), {k: gs[i] for k, i in names.items()})


def match_obj(ex, groups, named):
    addr = fresh_name("match")
    ex.st.objs[addr] = ObjRec("match", {"__groups": groups, "__named": named})
    return ObjRef(addr)


for _h in ("match", "fullmatch", "search"):
    def _re(ex, f, a, kw, how=_h):
        if kw or len(a) != 2 or not isinstance(a[0], str):
            raise Unsupported("regular expression with flags, or a computed one")
        return run(ex, how, a[0], a[1])
    X["re." + _h] = _re

    def _cre(ex, f, a, kw, how=_h):
        return run(ex, how, ex.st.objs[f.recv.addr].fields["__pattern"], a[0])
    X["pattern." + _h] = _cre


@ext("re.compile")
def _compile(ex, f, a, kw):
    if kw or len(a) != 1 or not isinstance(a[0], str):
        raise Unsupported("regular expression with flags, or a computed one")
    addr = fresh_name("pattern")
    ex.st.objs[addr] = ObjRec("pattern", {"__pattern": a[0]})
    return ObjRef(addr)


def group(ex, m, k):
    fs = ex.st.objs[m.addr].fields
    if isinstance(k, str):
        if k not in fs["__named"]:
            ex.raise_(IndexError)
        return fs["__named"][k]
    if not isinstance(k, int):
        raise Unsupported("group number")
    if not 0 <= k < len(fs["__groups"]):
        ex.raise_(IndexError)
    return fs["__groups"][k]


@ext("match.group")
def _group(ex, f, a, kw):
    if not a:
        a = [0]
    v = tuple(group(ex, f.recv, k) for k in a)
    return v[0] if len(v) == 1 else v


@ext("getitem:match")
def _getgroup(ex, o, k):
    return group(ex, o, k)


@ext("match.groups")
def _groups(ex, f, a, kw):
    return tuple(ex.st.objs[f.recv.addr].fields["__groups"][1:])
