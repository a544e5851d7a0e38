"""The scheduler: its state, representation invariant, operating-system and
database stand-ins, and the contracts of its methods."""
import signal

import z3

from pyvc.core import *
from pyvc.core import And, Or, Not, Implies, Iff, Ite, term_eq, simp
from pyvc.exec import norm, fixed_fm, EndPath
from pyvc.contract import Contract, All, Ex, View

RUN, JOB, CG = RefT("Run"), RefT("Job"), RefT("ConcurrencyGroup")
SCHEDULE = OptT(STR)

SCHEMA = {
    "Run": {"__population__": True, "job": JOB, "id": STR, "schedule_time": DT, "trigger_type": OptT(STR),
            "trigger_data": JV, "run_data": JV, "respawn": BOOL, "concurrency_group": OptT(CG),
            "start_time": OptT(DT), "stop_time": OptT(DT), "exit_code": OptT(INT), "output": OptT(STR),
            "pid": INT, "term_sent": BOOL, "kill_sent": BOOL, "term_time": DT,
            "max_execution": OptT(TD), "max_execution_grace": TD,
            "previous_run": OptT(RUN), "previous_good_run": OptT(RUN), "previous_bad_run": OptT(RUN)},
    "Job": {"__population__": True, "name": STR, "command": ListT(SEQ), "schedule": SCHEDULE,
            "schedule_timezone": TZ, "concurrency_groups": ListT(CG), "max_execution": OptT(TD),
            "max_execution_grace": TD, "environment": DictT(STR, JV), "render_reports": BOOL,
            "command_append_run": BOOL, "jenkins_environment": BOOL, "job_group": OptT(STR),
            "concurrent_runs": BOOL},
    "Scheduler": {"running_groups": DictT(CG, ListT(RUN))},
    "ConcurrencyGroup": {"__population__": True, "name": STR, "max": INT},
}
GHOSTS = ("term", "kill", "started", "recrun", "recdone")


def gfam(ex, name, st=None):
    """A ghost counter of a run; nothing has happened to a new one."""
    return ex.get_fm("ghost:" + name, (Ref,), INT, st, [z3.IntVal(0)])


def bump(ex, name, r):
    m = gfam(ex, name)
    ex.st.fm["ghost:" + name] = m.put((r,), (simp_int(m.read((r,)).e + 1),))
    ex.add_term(r, "Run")


def simp_int(e):
    return z3.simplify(e)


def by_name(t):
    """A dict of objects by their names (see config_ok)."""
    d = DictT(STR, t)
    d.keyfield = "name"
    return d


def scheduler(ex, **over):
    """The state of a scheduler between two of its methods."""
    st = ex.st
    P = ex.prog
    st.objs["config"] = ObjRec(P.names["dsari.config"]["Config"], {
        "data_dir": fresh(STR, "data_dir"), "shutdown_kill_runs": fresh(BOOL, "kill_runs"),
        "shutdown_kill_grace": fresh(OptT(TD), "kill_grace"), "jobs": DictV("config.jobs"),
        "concurrency_groups": DictV("config.groups"), "environment": DictV("config.environment")})
    st.dicts["config.jobs"] = DictRec(by_name(JOB), None, 0)
    st.dicts["config.groups"] = DictRec(by_name(CG), None, 0)
    st.dicts["config.environment"] = DictRec(DictT(STR, JV), None, 0)
    st.objs["db"] = ObjRec("db", {})
    f = {"shutdown": fresh(BOOL, "shutdown"), "shutdown_begin": fresh(DT, "shutdown_begin"),
         "config": ObjRef("config"), "logger": ExtV("logger", "logger"), "db": ObjRef("db"),
         "args": ExtV("args", "args"), "jobs": ListV("self.jobs"), "scheduled_runs": ListV("self.scheduled_runs"),
         "running_runs": ListV("self.running_runs"), "running_groups": DictV("self.running_groups"),
         "wakeups": ListV("self.wakeups"), "next_wakeup": fresh(DT, "next_wakeup"),
         "pending_signals": ListV("self.pending_signals")}
    f.update(over)
    st.objs["self"] = ObjRec(P.names["dsari.daemon"]["Scheduler"], f)
    st.lists["self.jobs"] = ListRec(JOB, None, 0)
    st.lists["self.scheduled_runs"] = ListRec(RUN, None, 0)
    st.lists["self.running_runs"] = ListRec(RUN, None, 0)
    st.lists["self.wakeups"] = ListRec(DT, None, 0)
    st.lists["self.pending_signals"] = ListRec(INT, None, 0)
    st.dicts["self.running_groups"] = DictRec(DictT(CG, ListT(RUN)), None, 0)
    ex.dict_fms(DictV("self.running_groups"))
    for g in GHOSTS:
        gfam(ex, g)
    st.ghost["wild_kills"] = SV(INT, [z3.IntVal(0)])
    return ObjRef("self")


def run_arg(ex, name="run"):
    r = SV(RUN, [Ref.Old(fconst(I, name))])
    ex.reg(r)
    return r


def ghost(v, name, r):
    return gfam(v.ex, name, v.st).read((r.cs[0] if isinstance(r, SV) else r,)).e


def now(c, k=-1):
    """A time read in this call."""
    n = c.new.st.ghost.get("nows", ())
    o = c.old.st.ghost.get("nows", ())
    o = o if isinstance(o, tuple) else ()
    if not isinstance(n, tuple):
        return None
    n = n[len(o):]
    if not n:
        return None
    return n[k].cs[0]


def at_call(self, c):
    return c.ex.root != self.qual


def clock(self, c, k=-1):
    """A time read by the function, None if it reads none on this path."""
    if not at_call(self, c):
        return now(c, k)
    if not hasattr(c, "times"):
        c.times = fconst(R, "now")
    return c.times


def running(v, r):
    return v.cnt(v.get("self", "running_runs"), r)


def pending(v, r):
    return v.cnt(v.get("self", "scheduled_runs"), r)


def R_(r):
    return SV(RUN, [r])


def f(v, name, r, cls="Run"):
    """Components of a field."""
    return v.cs(cls + "." + name, r)


def group(v, g):
    """The list of runs of a concurrency group."""
    d = v.get("self", "running_groups")
    return ListV("val:" + d.did, tuple(d.idx) + (g,))


def in_group(v, g, r):
    return v.cnt(group(v, g), r)


def has_group(v, g):
    return v.has(v.get("self", "running_groups"), g)


def jobcfg(v, name):
    d = v.get("config", "jobs")
    return v.has(d, name), v.val(d, name)


def cgcfg(v, name):
    d = v.get("config", "concurrency_groups")
    return v.has(d, name), v.val(d, name)


# ------------------------------------------------------------------ invariant
def inv_counts(v):
    yield "a run is in progress or pending at most once", All(["Run"], lambda r: [
        And(running(v, r) >= 0, running(v, r) <= 1), And(pending(v, r) >= 0, pending(v, r) <= 1),
        Not(And(running(v, r) > 0, pending(v, r) > 0))])


def inv_records(v):
    yield "records of runs in progress", All(["Run"], lambda r: Implies(
        running(v, r) > 0, And(ghost(v, "started", r) == 1, ghost(v, "recrun", r) == 1, ghost(v, "recdone", r) == 0,
                               f(v, "start_time", r)[0])))
    yield "records of pending runs", All(["Run"], lambda r: Implies(
        pending(v, r) > 0, And(*[ghost(v, g, r) == 0 for g in GHOSTS])))


def inv_signals(v):
    yield "signals sent to runs in progress", All(["Run"], lambda r: Implies(
        running(v, r) > 0, And(ghost(v, "term", r) == Ite(f(v, "term_sent", r)[0], z3.IntVal(1), z3.IntVal(0)),
                               ghost(v, "kill", r) == Ite(f(v, "kill_sent", r)[0], z3.IntVal(1), z3.IntVal(0)))))


def inv_pids(v):
    yield "runs in progress have their own process", All(["Run", "Run"], lambda a, b: [
        Implies(running(v, a) > 0, f(v, "pid", a)[0] > 0),
        Implies(And(running(v, a) > 0, running(v, b) > 0, f(v, "pid", a)[0] == f(v, "pid", b)[0]), a == b)])


def inv_groups(v):
    yield "a group's runs are the runs in progress in it", All(["ConcurrencyGroup", "Run"], lambda g, r: [
        Implies(has_group(v, g), And(in_group(v, g, r) >= 0, in_group(v, g, r) <= 1)),
        Implies(And(has_group(v, g), in_group(v, g, r) > 0),
                And(running(v, r) > 0, f(v, "concurrency_group", r)[0], f(v, "concurrency_group", r)[1] == g)),
        Implies(And(running(v, r) > 0, f(v, "concurrency_group", r)[0], f(v, "concurrency_group", r)[1] == g),
                And(has_group(v, g), in_group(v, g, r) == 1))])


def inv_pending(v):
    yield "at most one pending run of a job without concurrent runs", All(["Run", "Run"], lambda a, b: Implies(
        And(pending(v, a) > 0, pending(v, b) > 0, f(v, "job", a)[0] == f(v, "job", b)[0],
            Not(f(v, "concurrent_runs", f(v, "job", a)[0], "Job")[0])), a == b))
    yield "at most one pending run of a job carries its recurrence", All(["Run", "Run"], lambda a, b: Implies(
        And(pending(v, a) > 0, pending(v, b) > 0, f(v, "respawn", a)[0], f(v, "respawn", b)[0],
            f(v, "job", a)[0] == f(v, "job", b)[0]), a == b))


def inv_config(v):
    sd = v.get("self", "shutdown")
    sd = sd.e if isinstance(sd, SV) else z3.BoolVal(sd)

    def job_current(r):
        j = f(v, "job", r)[0]
        h, x = jobcfg(v, f(v, "name", j, "Job")[0])
        return h, x.cs[0] == j

    def cg_current(r):
        p, g = f(v, "concurrency_group", r)
        h, x = cgcfg(v, f(v, "name", g, "ConcurrencyGroup")[0])
        return p, And(h, x.cs[0] == g)
    yield "runs in progress belong to the configured job of their name", All(["Run"], lambda r: Implies(
        And(running(v, r) > 0, Not(sd), job_current(r)[0]), job_current(r)[1]))
    yield "pending runs belong to configured jobs", All(["Run"], lambda r: Implies(
        And(pending(v, r) > 0, Not(sd)), And(*job_current(r))))
    yield "groups of runs in progress are configured", All(["Run"], lambda r: Implies(
        And(running(v, r) > 0, Not(sd), cg_current(r)[0]), cg_current(r)[1]))
    yield "nothing is pending in shutdown", All(["Run"], lambda r: Implies(sd, pending(v, r) == 0))


def config_ok(v):
    """What loading guarantees of a configuration."""
    yield "jobs by name", All([S], lambda n: Implies(jobcfg(v, n)[0], f(v, "name", jobcfg(v, n)[1].cs[0], "Job")[0] == n))
    yield "groups by name", All([S], lambda n: Implies(
        cgcfg(v, n)[0], f(v, "name", cgcfg(v, n)[1].cs[0], "ConcurrencyGroup")[0] == n))

    def cgs(j, g):
        h, x = cgcfg(v, f(v, "name", g, "ConcurrencyGroup")[0])
        h2, y = jobcfg(v, f(v, "name", j, "Job")[0])
        return Implies(And(h2, y.cs[0] == j, v.cnt(ListV("Job.concurrency_groups", (j,)), g) > 0),
                       And(h, x.cs[0] == g))
    yield "groups of configured jobs are configured", All(["Job", "ConcurrencyGroup"], cgs)


INV = [(("C01", "C02", "C03"), inv_counts), (("C03", "C07"), inv_records), (("C05", "C06"), inv_signals),
       (("C05", "C07"), inv_pids), (("C01",), inv_groups), (("C02", "C04"), inv_pending),
       (("C01", "C02"), inv_config)]


def inv(v, only=None):
    for props, fn in INV:
        if only is None or fn in only:
            for name, g in fn(v):
                yield props, "invariant: " + name, g


class SchedContract(Contract):
    """A method of the scheduler, which keeps the invariant."""
    uses = None         # the parts of the invariant it needs and may touch

    def args(self, ex):
        return {}

    def setup(self, ex):
        s = scheduler(ex)
        L = {"self": s}
        L.update(self.args(ex))
        return L

    def requires(self, c):
        for p, n, g in inv(c.old, self.uses):
            yield p, n, g
        for p, n, g in self.pre(c):
            yield p, n, g

    def pre(self, c):
        return []

    def ensures(self, c):
        for p, n, g in inv(c.new, self.uses):
            yield p, n, g
        for p, n, g in self.post(c):
            yield p, n, g

    def post(self, c):
        return []

    def pool(self, ex, base, gl, W):
        """Candidates for loop invariants; kept where they are proved."""
        out = []
        if any(l[0] == "fm" and l[1].startswith("has:") for l in W):
            b = View(ex, base)

            def sizes(st, done):
                v = View(ex, st)
                return All(["ConcurrencyGroup"], lambda g: size(v, g) == size(b, g))
            out.append(("group sizes stay", sizes))

            def members(st, done):
                v = View(ex, st)
                return All(["ConcurrencyGroup", "Run"], lambda g, r: [
                    Implies(has_group(b, g), And(has_group(v, g), in_group(v, g, r) == in_group(b, g, r))),
                    Implies(And(has_group(v, g), Not(has_group(b, g))), in_group(v, g, r) == 0)])
            out.append(("group members stay", members))
            if gl is not None and gl.sorts == (Ref,):
                out.append(("groups tried are full", lambda st, done: All(["ConcurrencyGroup"], lambda g: Implies(
                    done((g,)) if done else False,
                    size(View(ex, st), g) >= f(View(ex, st), "max", g, "ConcurrencyGroup")[0]))))
        return out


# ------------------------------------------------------------------ externs
def kill(ex, fn, a, kw):
    """Signals go to the run whose pid this is, by where the number came from."""
    pid, sig = ex.unopt(a[0]), a[1]
    e = ex.coerce(pid, INT).e
    p = ex.st.prov.get(e.get_id())
    sd = View(ex, ex.st)
    if p is None or p[0] != "Run.pid":
        ex.require(z3.BoolVal(False), ("at kill", ex.root, "signal to the process of a run", ("C05", "C06")))
        return None
    r = p[1][0]
    ex.require(running(sd, r) > 0, ("at kill", ex.root, "signal only to a run in progress", ("C05", "C06")))
    s = int(sig) if isinstance(sig, int) else None
    if s == signal.SIGTERM:
        ex.require(ghost(sd, "term", r) == 0, ("at kill", ex.root, "no second SIGTERM", ("C05", "C06")))
        bump(ex, "term", r)
    elif s == signal.SIGKILL:
        ex.require(ghost(sd, "kill", r) == 0, ("at kill", ex.root, "no second SIGKILL", ("C05", "C06")))
        bump(ex, "kill", r)
    else:
        ex.require(z3.BoolVal(False), ("at kill", ex.root, "only SIGTERM and SIGKILL are sent", ("C05", "C06")))


EXTERNS = {"os.kill": kill}


def tdsum(opt):
    return Ite(opt[0], opt[1], z3.RealVal(0))


# ------------------------------------------------------------------ contracts
def appended(c, name):
    """Terms which were added to a list in this state (witness candidates)."""
    out = []
    fm = c.new.st.fm.get("cnt:" + c.new.get("self", name).lid)
    old = c.old.st.fm.get("cnt:" + c.new.get("self", name).lid)
    if fm is not None:
        for g, v in fm.ups:
            if hasattr(g, "idx"):
                out.append(tuple(g.idx))
    return out[-6:]


def wakes_by(c, t):
    """Some wake-up at or before t is registered."""
    return Ex([R, I], lambda w, z: And(c.new.cnt(c.new.get("self", "wakeups"), w, z) > 0, w <= t),
              wit=appended(c, "wakeups") or [(z3.RealVal(0), z3.IntVal(0))])


def wakeups_grow(c):
    return All([R, I], lambda w, z: c.new.cnt(c.new.get("self", "wakeups"), w, z) >=
               c.old.cnt(c.old.get("self", "wakeups"), w, z))


class ProcessWakeups(SchedContract):
    qual = "dsari.daemon.Scheduler.process_wakeups"
    props = ("C18", "C22")
    uses = ()

    def modifies(self, c):
        return [("O", "self", "next_wakeup", DT)]

    def post(self, c):
        v = c.new
        nw = v.obj("self", "next_wakeup", DT).cs[0]
        n1 = clock(self, c)
        yield ("C18",), "wakes up by every registered time", All([R, I], lambda w, z: Implies(
            v.cnt(v.get("self", "wakeups"), w, z) > 0, Or(nw <= w, nw <= n1)))
        yield ("C18", "C11"), "wakes up within a minute", nw <= n1 + 60
        sig = v.truth(v.get("self", "pending_signals"))
        yield ("C18", "C22"), "a signal is acted on at once", Implies(sig, nw <= n1)

    def pool(self, ex, base, gl, W):
        out = list(SchedContract.pool(self, ex, base, gl, W))
        n = base.ghost.get("nows")
        if ("field", "self", "next_wakeup") in W and isinstance(n, tuple):
            t = n[-1].cs[0]

            def le(st, done):
                return View(ex, st).obj("self", "next_wakeup", DT).cs[0] <= t + 60
            out.append(("within a minute", le))
            if gl is not None and gl.sorts == (R, I):
                out.append(("by all seen", lambda st, done: All(
                    gl.sorts, lambda *xs: Implies(done(xs) if done else False,
                                                  View(ex, st).obj("self", "next_wakeup", DT).cs[0] <= xs[0]))))
        return out


class ProcessRunExecutionTime(SchedContract):
    qual = "dsari.daemon.Scheduler.process_run_execution_time"
    props = ("C05", "C18")
    uses = (inv_counts, inv_signals)

    def args(self, ex):
        return {"run": run_arg(ex)}

    def pre(self, c):
        r = c["run"].e
        yield ("C05",), "the run is in progress", running(c.old, r) > 0
        yield ("C05",), "the run has started", f(c.old, "start_time", r)[0]
        yield ("C05",), "grace is not negative", f(c.old, "max_execution_grace", r)[0] >= 0

    def modifies(self, c):
        r = c["run"].e
        return [("F", "ghost:term", (r,)), ("F", "ghost:kill", (r,)), ("F", "Run.term_sent", (r,)),
                ("F", "Run.kill_sent", (r,)), ("F", "Run.term_time", (r,)), ("L", c.old.get("self", "wakeups"))]

    def post(self, c):
        r = c["run"].e
        o, n = c.old, c.new
        mx, gr = f(o, "max_execution", r), f(o, "max_execution_grace", r)[0]
        limit = And(mx[0], mx[1] != 0)
        st = f(o, "start_time", r)[1]
        t = clock(self, c)
        if t is None:
            t = fconst(R, "now")
        d = t - st
        ts, ks = f(o, "term_sent", r)[0], f(o, "kill_sent", r)[0]
        term = And(limit, d > mx[1], Not(ts))
        kill_ = And(limit, ts, Not(ks), d > mx[1] + gr, t > f(o, "term_time", r)[0] + gr)

        def delta(name):
            return ghost(n, name, r) - ghost(o, name, r)
        one, zero = z3.IntVal(1), z3.IntVal(0)
        yield ("C05",), "SIGTERM exactly when the limit is exceeded and none was sent", \
            delta("term") == Ite(term, one, zero)
        yield ("C05",), "SIGKILL exactly when the grace since the SIGTERM is exceeded and none was sent", \
            delta("kill") == Ite(kill_, one, zero)
        yield ("C05",), "the time of the SIGTERM is kept", Implies(
            Or(term, ts), f(n, "term_time", r)[0] == Ite(term, t, f(o, "term_time", r)[0]))
        yield ("C18",), "no registered wake-up is lost", wakeups_grow(c)
        nts, nks = f(n, "term_sent", r)[0], f(n, "kill_sent", r)[0]
        yield ("C18",), "wakes up when the limit is reached", Implies_goal(
            And(limit, Not(nts)), wakes_by(c, st + mx[1]))
        due = Ite(st + mx[1] >= f(n, "term_time", r)[0], st + mx[1], f(n, "term_time", r)[0]) + gr
        yield ("C18",), "wakes up when the grace has passed", Implies_goal(
            And(limit, nts, Not(nks)), wakes_by(c, due))


def Implies_goal(cond, ex):
    """An existential under a condition."""
    return Ex(ex.sorts, lambda *a: Implies(cond, ex.fn(*a)), ex.wit)


class BeginShutdown(SchedContract):
    qual = "dsari.daemon.Scheduler.begin_shutdown"
    props = ("C06",)
    uses = (inv_counts, inv_signals, inv_records, inv_pids, inv_groups, inv_pending, inv_config)

    def modifies(self, c):
        return [("O", "self", "shutdown", BOOL), ("O", "self", "shutdown_begin", DT),
                ("O", "self", "scheduled_runs", ListT(RUN)), ("F", "Run.respawn"), ("F", "ghost:term"),
                ("F", "Run.term_sent"), ("F", "Run.term_time")]

    def post(self, c):
        o, n = c.old, c.new
        sd = n.obj("self", "shutdown", BOOL).e
        yield ("C06",), "shutdown is in progress", sd
        yield ("C06",), "nothing is pending any more", All(["Run"], lambda r: pending(n, r) == 0)
        kr = o.obj("config", "shutdown_kill_runs", BOOL).e
        one, zero = z3.IntVal(1), z3.IntVal(0)

        def term(r):
            want = And(kr, running(o, r) > 0, Not(f(o, "term_sent", r)[0]))
            return ghost(n, "term", r) == ghost(o, "term", r) + Ite(want, one, zero)
        yield ("C06",), "SIGTERM exactly to the runs in progress not sent one, if configured", All(["Run"], term)
        yield ("C06", "C05"), "the time of an earlier SIGTERM is kept", All(["Run"], lambda r: Implies(
            f(o, "term_sent", r)[0], And(*[a == b for a, b in zip(f(n, "term_time", r), f(o, "term_time", r))])))
        t = clock(self, c)
        if t is None:
            yield ("C06",), "the time of the request is read", z3.BoolVal(False)
        else:
            yield ("C06",), "shutdown began now", n.obj("self", "shutdown_begin", DT).cs[0] == t
            yield ("C06", "C05"), "the time of the SIGTERM is noted", All(["Run"], lambda r: Implies(
                And(ghost(n, "term", r) > ghost(o, "term", r)), f(n, "term_time", r)[0] == t))


class MonitorShutdown(SchedContract):
    qual = "dsari.daemon.Scheduler.monitor_shutdown"
    props = ("C06", "C18")
    uses = (inv_counts, inv_signals)

    def modifies(self, c):
        return [("F", "ghost:kill"), ("F", "Run.kill_sent"), ("L", c.old.get("self", "wakeups"))]

    def post(self, c):
        o, n = c.old, c.new
        kr = o.obj("config", "shutdown_kill_runs", BOOL).e
        kg = o.obj("config", "shutdown_kill_grace", OptT(TD)).cs
        conf = And(kr, kg[0], kg[1] != 0)
        begin = o.obj("self", "shutdown_begin", DT).cs[0]
        t = clock(self, c)
        one, zero = z3.IntVal(1), z3.IntVal(0)
        yield ("C18",), "no registered wake-up is lost", wakeups_grow(c)
        if t is None:
            t = fconst(R, "now")
        past = t >= begin + kg[1]

        def kl(r):
            want = And(conf, past, running(o, r) > 0, Not(f(o, "kill_sent", r)[0]))
            return ghost(n, "kill", r) == ghost(o, "kill", r) + Ite(want, one, zero)
        yield ("C06",), "SIGKILL exactly to the runs in progress not sent one, after the grace", All(["Run"], kl)
        yield ("C18",), "wakes up when the shutdown grace has passed", Implies_goal(
            And(conf, Not(past)), wakes_by(c, begin + kg[1]))


# ------------------------------------------------------------------ starting and finishing runs
ALL_INV = tuple(fn for _, fn in INV)
NEXT = None


def next_time(v, job, t):
    """The next schedule time of a job after t, as (present, seconds, timezone)."""
    sch = f(v, "schedule", job, "Job")
    name = f(v, "name", job, "Job")[0]
    tz = f(v, "schedule_timezone", job, "Job")[0]
    return next_of(sch[1], name, t, tz)


def next_of(sch, name, t, tz):
    a = (S, S, R, I)
    return (z3.Function("next.some", *a, B)(sch, name, t, tz), z3.Function("next.time", *a, R)(sch, name, t, tz),
            z3.Function("next.zone", *a, I)(sch, name, t, tz))


def size(v, g):
    """How many runs are in progress in a concurrency group."""
    return Ite(has_group(v, g), v.len(group(v, g)), z3.IntVal(0))


def group_fams(v):
    d = v.get("self", "running_groups").did
    return [("F", "has:" + d), ("F", "cnt:val:" + d), ("F", "len:val:" + d)]


class GetNextScheduleTime(Contract):
    """Used at calls; its body is verified in contracts.schedule."""
    qual = "dsari.utils.get_next_schedule_time"
    props = ("C04", "C13")

    def setup(self, ex):
        raise Unsupported("verified elsewhere")

    def returns(self, c):
        ex = c.ex
        st = ex.unopt(c["start_time"])
        if st is None:
            st = SV(DT, [fconst(R, "now"), LOCAL_TZ])
        st = ex.coerce(st, DT)
        n = next_of(ex.coerce(c["schedule"], STR).e, ex.coerce(c["job_name"], STR).e, *st.cs)
        ex.st.assume(Implies(n[0], n[1] > st.cs[0]))
        return norm(SV(OptT(DT), n))


class LoadStructuredFile(Contract):
    """Used at calls; its body is verified in contracts.files."""
    qual = "dsari.utils.load_structured_file"
    props = ("C07", "C11")

    def returns(self, c):
        ex = c.ex
        p = ex.coerce(c["file"], STR)
        v = SV(JV, [fconst(J, "loaded")])
        ex.reg(v)
        dele = c["delete_during"]
        # it may fail before or after removing the file
        k = ex.pick(4)
        if k == 1:
            ex.st.events.append(Event("load", (p, c["file_type"], dele, "kept")))
            ex.raise_(OSError)
        if k == 2:
            ex.st.events.append(Event("load", (p, c["file_type"], dele, "bad")))
            ex.raise_(ValueError)
        if k == 3:
            from pyvc.exec import OtherError
            ex.st.events.append(Event("load", (p, c["file_type"], dele, "bad")))
            ex.raise_(OtherError)
        ex.st.events.append(Event("load", (p, c["file_type"], dele, v)))
        return v


def db_insert_run(ex, fn, a, kw):
    r = ex.unopt(a[0])
    v = View(ex, ex.st)
    q = ("at insert_run", ex.root)
    e = r.cs[0]
    ex.add_term(e, "Run")
    ex.require(running(v, e) > 0, q + ("only a run in progress is recorded as completed", ("C07",)))
    ex.require(ghost(v, "recdone", e) == 0, q + ("a run is recorded as completed once", ("C07",)))
    w = ex.st.ghost.get("waited")
    if w is None:
        ex.require(z3.BoolVal(False), q + ("only a run which has ended is recorded as completed", ("C07", "C08")))
    else:
        ex.require(f(v, "pid", e)[0] == w[0].e, q + ("only a run which has ended is recorded as completed", ("C07", "C08")))
        x = f(v, "exit_code", e)
        ex.require(And(x[0], x[1] == w[1].e), q + ("the exit code waited for is recorded", ("C07", "C08")))
    n = ex.st.ghost.get("nows", ())
    ex.require(And(f(v, "stop_time", e)[0], Or(*[f(v, "stop_time", e)[1] == t.cs[0] for t in n])) if n
               else z3.BoolVal(False), q + ("the stop time is the current time", ("C07",)))
    o = View(ex, ex.top_base)
    for nm in ("id", "job", "schedule_time", "start_time", "trigger_type", "trigger_data"):
        ex.require(And(*[x == y for x, y in zip(f(v, nm, e), f(o, nm, e))]),
                   q + ("recorded %s is the run's" % nm, ("C07",)))
    loads = [ev for ev in ex.st.events if ev.kind == "load"]
    good = [ev for ev in loads if isinstance(ev.args[3], SV)]
    rd, rd0 = f(v, "run_data", e)[0], f(o, "run_data", e)[0]
    key = J.jstr(z3.StringVal("return_data"))
    ex.require(And(J.is_jdict(rd), rd == rd0), q + ("run data is kept", ("C07",)))
    val = ex.jget().read((J.jdid(rd), key)).e
    has = ex.jhas().read((J.jdid(rd), key)).e
    if good:
        x = good[-1].args[3].e
        ok = z3.Function("json.dumpable", J, B)(x)
        ex.require(Implies(ok, And(has, val == x)), q + ("readable return data is recorded", ("C07",)))
    m = ex.get_fm("ghost:recdone", (Ref,), INT)
    bump(ex, "recdone", e)
    ex.st.fm["ghost:recrun"] = ex.st.fm["ghost:recrun"].put((e,), (z3.IntVal(0),))


def db_insert_running_run(ex, fn, a, kw):
    r = ex.unopt(a[0])
    v = View(ex, ex.st)
    q = ("at insert_running_run", ex.root)
    e = r.cs[0]
    ex.require(ghost(v, "recrun", e) == 0, q + ("a run is recorded as running once", ("C03", "C07")))
    ex.require(f(v, "start_time", e)[0], q + ("the start time is known when the run is recorded", ("C03", "C07")))
    bump(ex, "recrun", e)


def db_previous(ex, fn, a, kw):
    j = ex.unopt(a[0])
    out = []
    for k in ("previous", "previous_good", "previous_bad"):
        x = SV(OptT(RUN), [fconst(B, k), Ref.Old(fconst(I, k))])
        ex.reg(x)
        out.append(x)
    ex.st.ghost["previous"] = (j, tuple(out))
    return tuple(norm(x) for x in out)


def fork(ex, fn, a, kw):
    r = ex.st.ghost.get("starting")
    if r is None:
        ex.require(z3.BoolVal(False), ("at fork", ex.root, "processes are only made to start a pending run", ("C03", "C06")))
        raise Unsupported("fork")
    r = r.e
    v = View(ex, ex.st)
    for props, name, g in start_conditions(ex, v, r):
        ex.require(g, ("at fork", ex.root, name, props))
    bump(ex, "started", r)
    if ex.pick(2):
        return 0
    pid = fresh(INT, "child")
    ex.st.assume(pid.e > 0)
    o = View(ex, ex.st)
    ex.st.assume_all([Ref], lambda x: Implies(running(o, x) > 0, f(o, "pid", x)[0] != pid.e), "fresh pid")
    ex.st.ghost["forked"] = pid
    return pid


def start_conditions(ex, v, r):
    """What must hold when the process of run r is made."""
    sd = v.get("self", "shutdown")
    sd = sd.e if isinstance(sd, SV) else z3.BoolVal(sd)
    j = f(v, "job", r)[0]
    n = ex.st.ghost.get("nows", ())
    n = n if isinstance(n, tuple) else ()
    yield ("C06",), "nothing starts in shutdown", Not(sd)
    yield ("C03",), "only a pending run is started", pending(v, r) > 0
    yield ("C03",), "a run is started once", ghost(v, "started", r) == 0
    yield ("C03",), "not started before its schedule time", \
        Or(*[f(v, "schedule_time", r)[0] <= t.cs[0] for t in n]) if n else z3.BoolVal(False)
    yield ("C03", "C07"), "recorded as running before it starts", ghost(v, "recrun", r) == 1
    s = f(v, "start_time", r)
    yield ("C03",), "its start time is the current time", And(s[0], Or(*[s[1] == t.cs[0] for t in n])) if n \
        else z3.BoolVal(False)
    p = ex.st.ghost.get("previous")
    if p is None:
        yield ("C03", "C09"), "the previous runs are looked up before", z3.BoolVal(False)
    else:
        yield ("C03", "C09"), "the previous runs of its job are looked up", p[0].e == j
        for nm, x in zip(("previous_run", "previous_good_run", "previous_bad_run"), p[1]):
            y = f(v, nm, r)
            yield ("C03", "C09"), "%s is the one looked up" % nm, And(y[0] == x.cs[0], Implies(x.cs[0], y[1] == x.cs[1]))
    yield ("C02",), "no other run of a job without concurrent runs is in progress", All(["Run"], lambda x: Implies(
        And(running(v, x) > 0, f(v, "job", x)[0] == j), f(v, "concurrent_runs", j, "Job")[0]))
    cg = f(v, "concurrency_group", r)
    cgs = ListV("Job.concurrency_groups", (j,))
    yield ("C01",), "a group is chosen exactly if the job has groups", cg[0] == (v.len(cgs) > 0)
    yield ("C01",), "the chosen group is one of the job's", Implies(cg[0], v.cnt(cgs, cg[1]) > 0)
    yield ("C01",), "the chosen group has room", Implies(
        cg[0], size(v, cg[1]) < f(v, "max", cg[1], "ConcurrencyGroup")[0])
    path = run_dir(v, r)
    made = [ev for ev in v.events if ev.kind == "makedirs"]
    seen = [ev for ev in v.events if ev.kind in ("fs.exists", "fs.isdir")]
    yield ("C03", "C10"), "its directory exists", Or(*[ev.args[0].e == path for ev in made],
                                                    *[And(ev.args[0].e == path, ev.args[1].e) for ev in seen])


def join(*a):
    r = a[0]
    for x in a[1:]:
        x = z3.StringVal(x) if isinstance(x, str) else x
        r = z3.Function("path.join", S, S, S)(r, x)
    return r


def run_dir(v, r):
    return join(v.obj("config", "data_dir", STR).e, "runs", f(v, "name", f(v, "job", r)[0], "Job")[0], f(v, "id", r)[0])


EXTERNS.update({"db.insert_run": db_insert_run, "db.insert_running_run": db_insert_running_run,
                "db.get_previous_runs": db_previous, "os.fork": fork})


class RunChildExecutor(Contract):
    """At its call; the body is verified in contracts.child."""
    qual = "dsari.daemon.Scheduler.run_child_executor"
    props = ("C03", "C09", "C10")

    def requires(self, c):
        r = c.ex.st.ghost.get("starting")
        yield ("C03",), "the process executes the run being started", \
            z3.BoolVal(False) if r is None else c["run"].e == r.e

    def returns(self, c):
        raise EndPath()


class ProcessScheduledRun(SchedContract):
    qual = "dsari.daemon.Scheduler.process_scheduled_run"
    props = ("C01", "C02", "C03", "C04", "C06", "C18")
    uses = ALL_INV

    def args(self, ex):
        r = run_arg(ex)
        ex.st.ghost["starting"] = r
        return {"run": r}

    def pre(self, c):
        r = c["run"].e
        yield ("C03",), "the run is pending", pending(c.old, r) > 0
        for n, g in config_ok(c.old):
            yield ("C01", "C02"), n, g

    def modifies(self, c):
        o = c.old
        r = c["run"].e
        out = [("L", o.get("self", "wakeups")), ("L", o.get("self", "scheduled_runs")), ("L", o.get("self", "running_runs")),
               *group_fams(o)]
        for n in ("start_time", "concurrency_group", "previous_run", "previous_good_run", "previous_bad_run", "term_sent",
                  "kill_sent", "max_execution", "max_execution_grace", "pid"):
            out.append(("F", "Run." + n, (r,)))
        for g in ("started", "recrun"):
            out.append(("F", "ghost:" + g, (r,)))
        return out

    def post(self, c):
        r = c["run"].e
        o, n = c.old, c.new
        j = f(o, "job", r)[0]
        t = clock(self, c)
        if t is None:
            yield self.props, "the time is read", z3.BoolVal(False)
            return
        st = f(o, "schedule_time", r)[0]
        due = st <= t
        started = ghost(n, "started", r) > 0
        conc = f(o, "concurrent_runs", j, "Job")[0]
        cgs = ListV("Job.concurrency_groups", (j,))
        ncg = o.len(cgs)
        yield ("C03",), "not started before it is due", Implies(started, due)
        yield ("C03", "C02"), "a due run not held back is started", All(["ConcurrencyGroup"], lambda g: Ex(["Run"], lambda x: Implies(
            And(Not(started), due, Or(conc, Not(And(running(o, x) > 0, f(o, "job", x)[0] == j)))),
            And(ncg > 0, Implies(o.cnt(cgs, g) > 0, size(o, g) >= f(o, "max", g, "ConcurrencyGroup")[0])))))
        for nm, lst in (("in progress", running), ("pending", pending)):
            d = 1 if nm == "in progress" else -1
            yield ("C03",), "a started run is %s as it should be" % nm, \
                lst(n, r) == lst(o, r) + Ite(started, z3.IntVal(d), z3.IntVal(0))
            yield ("C02", "C03", "C04"), "other runs stay as they are (%s)" % nm, All(["Run"], lambda x: Implies(
                And(Ref.is_Old(x), x != r), lst(n, x) == lst(o, x)))
        sch = f(o, "schedule", j, "Job")
        nx = next_time(o, j, t)
        succ = And(started, f(o, "respawn", r)[0], sch[0], sch[1] != z3.StringVal(""), nx[0])

        def new_ok(x):
            return Implies(And(Not(Ref.is_Old(x)), pending(n, x) > 0), And(
                succ, f(n, "job", x)[0] == j, f(n, "respawn", x)[0], f(n, "schedule_time", x)[0] == nx[1],
                f(n, "trigger_type", x)[0], f(n, "trigger_type", x)[1] == z3.StringVal("schedule")))
        yield ("C04",), "the successor is the next run of the schedule", All(["Run"], new_ok)
        yield ("C04",), "a recurring run queues its successor when it starts", Ex(["Run"], lambda x: Implies(
            succ, And(Not(Ref.is_Old(x)), pending(n, x) > 0)))
        yield ("C04",), "it queues no more than one", All(["Run", "Run"], lambda x, y: Implies(
            And(Not(Ref.is_Old(x)), Not(Ref.is_Old(y)), pending(n, x) > 0, pending(n, y) > 0), x == y))
        yield ("C03",), "only pending runs gain from it", All(["Run"], lambda x: Implies(
            Not(Ref.is_Old(x)), running(n, x) == 0))
        lim = f(n, "max_execution", r)
        jl = f(o, "max_execution", j, "Job")
        yield ("C05",), "its limits are its job's at the start", Implies(started, And(
            lim[0] == jl[0], Implies(jl[0], lim[1] == jl[1]),
            f(n, "max_execution_grace", r)[0] == f(o, "max_execution_grace", j, "Job")[0],
            Not(f(n, "term_sent", r)[0]), Not(f(n, "kill_sent", r)[0])))
        cg = f(n, "concurrency_group", r)
        yield ("C01",), "it takes a place in the group chosen for it", Implies(And(started, cg[0]), And(
            has_group(n, cg[1]), size(n, cg[1]) == size(o, cg[1]) + 1))
        yield ("C01",), "no other group changes", All(["ConcurrencyGroup"], lambda g: Implies(
            Not(And(started, cg[0], g == cg[1])), size(n, g) == size(o, g)))
        yield ("C18",), "no registered wake-up is lost", wakeups_grow(c)
        yield ("C18",), "wakes up when the run is due", Implies_goal(Not(due), wakes_by(c, st))
        held = And(due, Not(started))
        ap = appended(c, "wakeups") or [(z3.RealVal(0), z3.IntVal(0))]
        yield ("C18",), "a run held back is tried again within the retry delay", Ex([R, I], lambda w, z: Implies(
            held, And(n.cnt(n.get("self", "wakeups"), w, z) > 0, w <= t + 300, w >= t + 5)), wit=ap)
        yield ("C18", "C04"), "wakes up when the successor is due", Implies_goal(succ, wakes_by(c, nx[1]))


class ProcessNextChild(SchedContract):
    qual = "dsari.daemon.Scheduler.process_next_child"
    props = ("C01", "C07", "C08", "C22")
    uses = ALL_INV

    def modifies(self, c):
        o = c.old
        out = [("L", o.get("self", "running_runs")), *group_fams(o)[1:]]
        for n in ("stop_time", "exit_code"):
            out.append(("F", "Run." + n))
        for g in ("recrun", "recdone"):
            out.append(("F", "ghost:" + g))
        return out

    def pre(self, c):
        yield ("C07",), "run data is a dict", All(["Run"], lambda r: Implies(
            running(c.old, r) > 0, J.is_jdict(f(c.old, "run_data", r)[0])))

    def returns(self, c):
        return fresh(INT, "child_pid")

    def post(self, c):
        o, n = c.old, c.new
        pid = c.ex.coerce(c.ret, INT).e
        if not at_call(self, c):
            w = n.st.ghost.get("waited")
            yield ("C07", "C08"), "waits for a run and returns its process", pid == w[0].e if w else z3.BoolVal(False)

        def hit(r):
            return And(running(o, r) > 0, f(o, "pid", r)[0] == pid, pid != 0)
        one, zero = z3.IntVal(1), z3.IntVal(0)
        yield ("C07",), "a run stops being in progress when its process has ended", All(["Run"], lambda r: running(
            n, r) == running(o, r) - Ite(hit(r), one, zero))
        yield ("C07",), "a run which ended is recorded as completed", All(["Run"], lambda r: ghost(
            n, "recdone", r) == ghost(o, "recdone", r) + Ite(hit(r), one, zero))
        yield ("C07",), "a run which ended is no longer recorded as running", All(["Run"], lambda r: ghost(
            n, "recrun", r) == Ite(hit(r), zero, ghost(o, "recrun", r)))
        yield ("C01",), "a run which ended frees its place in its group", All(["ConcurrencyGroup"], lambda g: All(["Run"], lambda r: [
            Implies(And(hit(r), f(o, "concurrency_group", r)[0], f(o, "concurrency_group", r)[1] == g),
                    size(n, g) == size(o, g) - 1)]))
        yield ("C07",), "times and exit codes of other runs stay", All(["Run"], lambda r: Implies(Not(hit(r)), And(
            *[a == b for nm in ("stop_time", "exit_code") for a, b in zip(f(n, nm, r), f(o, nm, r))])))


# ------------------------------------------------------------------ configuration taken over
def is_sd(v):
    return v.obj("self", "shutdown", BOOL).e


def cfg_job(v, j):
    """Whether j is the configured job of its name."""
    h, x = jobcfg(v, f(v, "name", j, "Job")[0])
    return And(h, x.cs[0] == j)


class ResetJobs(SchedContract):
    qual = "dsari.daemon.Scheduler.reset_jobs"
    props = ("C01", "C02", "C04", "C22")
    # the invariant's parts about the configuration hold again afterwards only
    uses = (inv_counts, inv_records, inv_signals, inv_pids, inv_groups, inv_pending)

    def pre(self, c):
        for n, g in config_ok(c.old):
            yield ("C01", "C02", "C04"), n, g
        yield ("C06",), "nothing is pending in shutdown", All(["Run"], lambda r: Implies(
            is_sd(c.old), pending(c.old, r) == 0))

    def modifies(self, c):
        return [("O", "self", "jobs", ListT(JOB)), ("O", "self", "scheduled_runs", ListT(RUN)),
                ("O", "self", "running_groups", DictT(CG, ListT(RUN))),
                ("F", "Run.respawn"), ("F", "Run.job"), ("F", "Run.concurrency_group")]

    def pool(self, ex, base, gl, W):
        out = SchedContract.pool(self, ex, base, gl, W)
        if any(l[0] == "fm" and l[1].startswith("has:") for l in W) and gl is not None and gl.sorts == (Ref,):
            def only_done(st, done):
                v = View(ex, st)
                return All(["ConcurrencyGroup", "Run"], lambda g, r: Implies(has_group(v, g), And(
                    in_group(v, g, r) >= 0, in_group(v, g, r) <= 1, Implies(in_group(v, g, r) > 0, And(
                        done((r,)) if done else False, f(v, "concurrency_group", r)[0],
                        f(v, "concurrency_group", r)[1] == g)))))

            def all_done(st, done):
                v = View(ex, st)
                return All(["ConcurrencyGroup", "Run"], lambda g, r: Implies(
                    And(done((r,)) if done else False, f(v, "concurrency_group", r)[0],
                        f(v, "concurrency_group", r)[1] == g), And(has_group(v, g), in_group(v, g, r) == 1)))
            out += [("groups have no other runs", only_done), ("groups have their runs", all_done)]
        return out

    def post(self, c):
        o, n = c.old, c.new
        sd = is_sd(o)
        for p, name, g in inv(n, (inv_config,)):
            yield p, name, g
        yield ("C06", "C22"), "nothing changes in shutdown", All(["Run"], lambda r: Implies(sd, And(
            pending(n, r) == pending(o, r), *[x == y for nm in ("respawn", "job", "concurrency_group")
                                              for x, y in zip(f(n, nm, r), f(o, nm, r))])))
        yield ("C22", "C07"), "runs in progress stay in progress", All(["Run"], lambda r: running(n, r) == running(o, r))
        yield ("C22", "C07"), "runs in progress keep the name of their job", All(["Run"], lambda r: Implies(
            running(o, r) > 0, f(n, "name", f(n, "job", r)[0], "Job")[0] == f(o, "name", f(o, "job", r)[0], "Job")[0]))
        yield ("C04",), "runs in progress queue no successor", All(["Run"], lambda r: Implies(
            And(Not(sd), running(n, r) > 0), Not(f(n, "respawn", r)[0])))
        t = clock(self, c)
        if t is None:
            yield ("C04",), "nothing to schedule without reading the time", sd
            t = fconst(R, "now")

        def due(r):
            j = f(n, "job", r)[0]
            nx = next_time(n, j, t)
            sch = f(n, "schedule", j, "Job")
            return Implies(And(Not(sd), pending(n, r) > 0), And(
                cfg_job(n, j), sch[0], sch[1] != z3.StringVal(""), nx[0], f(n, "schedule_time", r)[0] == nx[1],
                f(n, "respawn", r)[0], f(n, "trigger_type", r)[0],
                f(n, "trigger_type", r)[1] == z3.StringVal("schedule")))
        yield ("C04", "C22"), "pending are the next recurring runs of configured jobs", All(["Run"], due)

        def each(j):
            nx = next_time(n, j, t)
            sch = f(n, "schedule", j, "Job")
            return Ex(["Run"], lambda r: Implies(
                And(Not(sd), cfg_job(n, j), sch[0], sch[1] != z3.StringVal(""), nx[0]),
                And(pending(n, r) > 0, f(n, "job", r)[0] == j)), wit=c.ex.made_for(j, "Run") or None)
        yield ("C04",), "every configured job with a next time has a recurring run pending", All(["Job"], each)
        js = n.get("self", "jobs")
        yield ("C04", "C11"), "triggers are looked for of exactly the configured jobs", All(["Job"], lambda j: Implies(
            Not(sd), n.cnt(js, j) == Ite(cfg_job(n, j), z3.IntVal(1), z3.IntVal(0))))


UNITS = [ResetJobs, ProcessWakeups, ProcessRunExecutionTime, BeginShutdown, MonitorShutdown, ProcessScheduledRun, ProcessNextChild]
CALLS = [GetNextScheduleTime, LoadStructuredFile, RunChildExecutor]
