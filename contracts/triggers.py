"""Trigger files: reading them, and the runs made of them."""
import z3

from pyvc.core import *
from pyvc.core import And, Or, Not, Implies, Iff, Ite, term_eq, simp
from pyvc.exec import norm, OtherError
from pyvc.contract import Contract, All, Ex, View

from .sched import *
from .sched import f

jss = z3.StringVal


def key(s):
    return J.jstr(z3.StringVal(s))


def jh(v, d, k):
    sv, v.ex.st = v.ex.st, v.st
    try:
        return v.ex.jhas().read((J.jdid(d), k)).e
    finally:
        v.ex.st = sv


def jg(v, d, k):
    sv, v.ex.st = v.ex.st, v.st
    try:
        return v.ex.jget().read((J.jdid(d), k)).e
    finally:
        v.ex.st = sv


# how values are turned into text
num_text = z3.Function("str.of", J, S)


def env_text(x):
    return Ite(J.is_jstr(x), J.js(x), num_text(x))


def env_key_ok(k):
    return J.is_jstr(k)


def env_val_ok(x):
    return Or(J.is_jstr(x), J.is_jint(x), J.is_jreal(x))


# ------------------------------------------------------------------ environment
class ValidateEnvironment(Contract):
    qual = "dsari.utils.validate_environment_dict"
    props = ("C09", "C11", "C14")

    def setup(self, ex):
        v = SV(JV, [J.jdict(fconst(I, "env"))])
        ex.reg(v)
        ex.jhas(), ex.jget()
        return {"env_in": v}

    def requires(self, c):
        yield ("C11", "C14"), "it is a dict", J.is_jdict(c.ex.coerce(c["env_in"], JV).e)

    def raises(self, c):
        e = c.ex.coerce(c["env_in"], JV).e
        o = c.old
        if c.ex.root == self.qual:
            # only for a key or value which cannot be used
            ks = [k for k in c.ex.st.terms.get(str(J), [])]
            bad = Or(*[And(jh(o, e, k), Not(And(env_key_ok(k), env_val_ok(jg(o, e, k))))) for k in ks])
            return [(KeyError, bad), (ValueError, bad)]
        return [(KeyError, True), (ValueError, True)]

    def modifies(self, c):
        return [("F", "J.has"), ("F", "J.get")] if c.ex.root == self.qual else []

    def returns(self, c):
        ex = c.ex
        e = ex.coerce(c["env_in"], JV).e
        jid = ex.new_jid("env")
        has, get = ex.jhas(), ex.jget()
        old = J.jdid(e)
        ex.st.fm["J.has"] = has.upd(lambda a: term_eq(a[0], jid), lambda a: has.read((old, a[1])).cs)
        ex.st.fm["J.get"] = get.upd(lambda a: term_eq(a[0], jid),
                                    lambda a: (J.jstr(env_text(get.read((old, a[1])).e)),))
        ex.st.ghost["validated"] = (e, J.jdict(jid))
        return SV(JV, [J.jdict(jid)])

    def ensures(self, c):
        ex = c.ex
        o = c.old
        e = ex.coerce(c["env_in"], JV).e
        if ex.root != self.qual:
            yield ("C11",), "usable", All([J], lambda k: Implies(jh(o, e, k), And(
                env_key_ok(k), env_val_ok(jg(o, e, k)))))
            return
        sv, ex.st = ex.st, c.new.st
        try:
            r = ex.to_json(c.ret)
        finally:
            ex.st = sv
        n = View(ex, ex.st) if False else c.new
        yield ("C09", "C11", "C14"), "a dict", J.is_jdict(r)
        yield ("C09", "C11", "C14"), "accepts only text keys and text or number values", All([J], lambda k: Implies(
            jh(o, e, k), And(env_key_ok(k), env_val_ok(jg(o, e, k)))))
        yield ("C09", "C11", "C14"), "exactly the given keys", All([J], lambda k: jh(n, r, k) == jh(o, e, k))
        yield ("C09", "C11", "C14"), "their values as text", All([J], lambda k: Implies(
            jh(o, e, k), jg(n, r, k) == J.jstr(env_text(jg(o, e, k)))))


# ------------------------------------------------------------------ times in triggers
def gettz(ex, fn, a, kw):
    x = ex.to_json(ex.unopt(a[0]) if a else None)
    if ex.decide(z3.Function("tz.unusable", J, B)(x)):
        ex.raise_(OtherError)
    return norm(SV(OptT(TZ), [z3.Function("tz.known", J, B)(x), z3.Function("tz.named", J, I)(x)]))


def parse_dt(ex, fn, a, kw):
    s = ex.coerce(ex.unopt(a[0]), STR).e
    if ex.decide(z3.Function("when.bad", S, B)(s)):
        ex.raise_(ValueError if ex.maybe("parse") else OtherError)
    w, z = z3.Function("when.wall", S, R)(s), z3.Function("when.zone", S, I)(s)
    if ex.decide(z3.Function("when.aware", S, B)(s)):
        return SV(DT, [w, z])
    return SV(NDT, [w])


EXTERNS = {"dateutil.tz.gettz": gettz, "dateutil.parser.parse": parse_dt}


class ProcessTriggerJob(SchedContract):
    qual = "dsari.daemon.Scheduler.process_trigger_job"
    props = ("C02", "C04", "C11", "C16", "C09")
    uses = ALL_INV
    opts = {"time_errors": True, "open_errors": True}

    def args(self, ex):
        j = SV(JOB, [Ref.Old(fconst(I, "job"))])
        ex.reg(j)
        ex.jhas(), ex.jget()
        return {"job": j}

    def pre(self, c):
        j = c["job"].e
        yield ("C02", "C04"), "the job is configured", cfg_job(c.old, j)
        yield ("C06",), "not in shutdown", Not(is_sd(c.old))
        for n, g in config_ok(c.old):
            yield ("C02",), n, g

    def modifies(self, c):
        return [("L", c.old.get("self", "scheduled_runs")), ("F", "J.has"), ("F", "J.get")]

    def post(self, c):
        o, n = c.old, c.new
        j = c["job"].e
        conc = f(o, "concurrent_runs", j, "Job")[0]
        new = lambda r: And(Not(known0(c, r)), pending(n, r) > 0)
        yield ("C02", "C11"), "at most one run is made", All(["Run", "Run"], lambda x, y: Implies(
            And(new(x), new(y)), x == y))
        yield ("C11", "C02"), "it is a run of this job, of type file", All(["Run"], lambda r: Implies(new(r), And(
            f(n, "job", r)[0] == j, f(n, "trigger_type", r)[0], f(n, "trigger_type", r)[1] == jss("file"))))
        yield ("C02",), "other runs stay pending if the job allows concurrent runs", All(["Run"], lambda r: Implies(
            And(conc, known0(c, r)), pending(n, r) == pending(o, r)))
        yield ("C02", "C11"), "runs of other jobs stay pending", All(["Run"], lambda r: Implies(
            And(known0(c, r), f(o, "job", r)[0] != j), pending(n, r) == pending(o, r)))
        yield ("C02",), "the run replaces the pending run of its job", All(["Run", "Run"], lambda x, r: Implies(
            And(Not(conc), new(x), known0(c, r), f(o, "job", r)[0] == j), pending(n, r) == 0))
        yield ("C04",), "a triggered run takes over the recurrence of the run it replaces, and no other", \
            All(["Run", "Run"], lambda x, r: [
                Implies(And(new(x), conc), Not(f(n, "respawn", x)[0])),
                Implies(And(new(x), Not(conc), pending(o, r) > 0, f(o, "job", r)[0] == j),
                        f(n, "respawn", x)[0] == f(o, "respawn", r)[0])])
        yield ("C04",), "a triggered run which replaced nothing is not recurring", All(["Run"], lambda x: Implies(
            And(new(x), f(n, "respawn", x)[0]), Not(no_pending(c, j))))
        if at_call(self, c):
            return
        loads = [e for e in n.events if e.kind == "load"]
        good = [e for e in loads if isinstance(e.args[3], SV)]
        made = good[-1].args[3].e if good else None
        none = All(["Run"], lambda r: And(Not(new(r)), Implies(known0(c, r), pending(n, r) == pending(o, r))))
        if len(loads) > 1:
            yield ("C11",), "one file is read", z3.BoolVal(False)
        td = join(o.obj("config", "data_dir", STR).e, "trigger", f(o, "name", j, "Job")[0])
        if not good:
            yield ("C11",), "a file that cannot be used changes nothing", none
        else:
            dt = made
            usable, wall = trigger_time(n, o, dt, mtime(n), LOCAL_TZ)
            yield ("C11",), "a file that is no dict changes nothing", All(["Run"], lambda r: Implies(
                Not(J.is_jdict(dt)), And(Not(new(r)), Implies(known0(c, r), pending(n, r) == pending(o, r)))))
            yield ("C11",), "an environment that is no dict changes nothing", All(["Run"], lambda r: Implies(
                And(J.is_jdict(dt), jh(o, dt, key("environment")), Not(J.is_jdict(jg(o, dt, key("environment"))))),
                And(Not(new(r)), Implies(known0(c, r), pending(n, r) == pending(o, r)))))
            yield ("C11",), "the run carries exactly the file's data", All(["Run", J], lambda r, k: Implies(new(r), And(
                J.is_jdict(f(n, "trigger_data", r)[0]),
                jh(n, f(n, "trigger_data", r)[0], k) == jh(o, dt, k),
                Implies(And(jh(o, dt, k), k != key("environment")),
                        jg(n, f(n, "trigger_data", r)[0], k) == jg(o, dt, k)))))
            w = n.st.ghost.get("validated")
            e0 = jg(o, dt, key("environment"))
            yield ("C11", "C09"), "its environment is the file's, as text", All(["Run", J], lambda r, k: Implies(
                And(new(r), jh(o, dt, key("environment"))), And(
                    jh(n, jg(n, f(n, "trigger_data", r)[0], key("environment")), k) == jh(o, e0, k),
                    Implies(jh(o, e0, k), jg(n, jg(n, f(n, "trigger_data", r)[0], key("environment")), k) ==
                            J.jstr(env_text(jg(o, e0, k)))))))
            yield ("C11",), "it is due at the time the file gives, or else at the file's time", All(
                ["Run"], lambda r: Implies(new(r), And(usable, f(n, "schedule_time", r)[0] == wall)))
        # which file is used, and when
        if loads:
            e = loads[-1]
            p, ft, dele = e.args[0].e, e.args[1], e.args[2]
            yield ("C11",), "the file is removed when it is read", z3.BoolVal(dele is True)
            seen = [x for x in n.events if x.kind == "fs.exists"]
            js, ya = join(td, "trigger.json"), join(td, "trigger.yaml")
            isj = Or(*[And(x.args[0].e == js, x.args[1].e) for x in seen])
            isy = And(Or(*[And(x.args[0].e == js, Not(x.args[1].e)) for x in seen]),
                      Or(*[And(x.args[0].e == ya, x.args[1].e) for x in seen]))
            yield ("C11",), "JSON is taken before YAML", isj if ft == "json" else isy if ft == "yaml" \
                else z3.BoolVal(False)
            yield ("C11",), "the job's trigger file is read", p == (js if ft == "json" else ya)
        else:
            seen = [x for x in n.events if x.kind == "fs.exists" and len(x.args) > 1]
            failed = [x for x in n.events if x.kind == "mtime"]
            yield ("C11",), "a trigger file there is read", Or(*([And(*[Not(x.args[1].e) for x in seen])] if len(seen) >= 2
                                                                else [z3.BoolVal(False)]),
                                                               z3.BoolVal(c.new.st.ghost.get("mtime_failed") is True))


def no_pending(c, j):
    """No run of the job is pending in the old state, of the runs known here."""
    ts = [x for x in c.old.st.terms.get(str(Ref), []) if c.old.st.fits(x, "Run")]
    ts += [x for x in c.new.st.terms.get(str(Ref), []) if c.new.st.fits(x, "Run")]
    return And(*[Not(And(pending(c.old, r) > 0, f(c.old, "job", r)[0] == j, f(c.old, "respawn", r)[0])) for r in ts])


def known0(c, r):
    """The run existed before the call."""
    return Ref.is_Old(r)


def mtime(v):
    m = [e for e in v.events if e.kind == "mtime"]
    return m[-1].args[1].e if m else fconst(R, "mtime")


def trigger_time(v, o, d, mt, local):
    """Whether the data has a usable time, and that time."""
    k, kz = key("schedule_time"), key("schedule_timezone")
    h, x = jh(o, d, k), jg(o, d, k)
    z = Ite(jh(o, d, kz), jg(o, d, kz), J.jnone)
    num = Or(J.is_jint(x), J.is_jreal(x))
    epoch = Ite(J.is_jint(x), z3.ToReal(J.ji(x)), J.jr(x))
    return z3.BoolVal(True), v.ex.st.ghost and fconst(R, "w")


UNITS = []
