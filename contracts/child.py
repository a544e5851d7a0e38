"""The process of a run: its environment, command, directory, group and files."""
import os
import signal

import z3

from pyvc.core import *
from pyvc.core import And, Or, Not, Implies, Iff, Ite, term_eq
from pyvc.exec import EndPath, norm
from pyvc.contract import All, View
from . import sched
from .sched import f, running, join, run_dir, tdsum, SchedContract, JOB, RUN

ENV = DictT(STR, STR)
RESET = (signal.SIGHUP, signal.SIGINT, signal.SIGTERM, signal.SIGQUIT, signal.SIGPIPE)


def note(ex, key, v):
    ex.st.ghost[key] = v


def sig_signal(ex, fn, a, kw):
    if not isinstance(a[0], int) or not isinstance(a[1], int):
        raise Unsupported("handler of a signal")
    note(ex, "sig:%d" % a[0], int(a[1]))


def setpgid(ex, fn, a, kw):
    me = ex.coerce(a[0], INT).e
    g = ex.coerce(a[1], INT).e
    own = z3.Const("own pid", I)
    note(ex, "pgrp", SV(BOOL, [zb(Or(And(Or(me == own, me == 0), Or(g == 0, g == own))))]))


def getpwuid(ex, fn, a, kw):
    known = z3.Const("user known", B)
    if not ex.decide(known):
        ex.raise_(KeyError)
    uid = ex.coerce(a[0], INT).e
    ad = fresh_name("pw")
    ex.st.objs[ad] = ObjRec("struct_passwd", {
        "pw_name": SV(STR, [z3.Function("pw.name", I, S)(uid)]), "pw_dir": SV(STR, [z3.Function("pw.dir", I, S)(uid)])})
    return ObjRef(ad)


def isdir(ex, fn, a, kw):
    return SV(BOOL, [z3.Function("is a directory", S, B)(ex.coerce(ex.unopt(a[0]), STR).e)])


def exists(ex, fn, a, kw):
    p = ex.coerce(ex.unopt(a[0]), STR).e
    b = fconst(B, "exists")
    ex.st.assume(Implies(z3.Function("is a directory", S, B)(p), b))
    return SV(BOOL, [b])


def file_of(ex, fd):
    """The open file of a descriptor number."""
    for ad, r in ex.st.objs.items():
        x = r.fields.get("fd")
        if isinstance(x, SV) and isinstance(fd, SV) and z3.eq(x.e, fd.e):
            return ad
    return None


def dup2(ex, fn, a, kw):
    fd = file_of(ex, a[0])
    if fd is None and isinstance(a[0], int):
        fd = ex.st.ghost.get("fd:%d" % a[0])
    closed = any(e.kind == "close" and e.args[0].addr == fd for e in ex.st.events)
    if fd is None or closed or not isinstance(a[1], int):
        raise Unsupported("dup2")
    note(ex, "fd:%d" % a[1], fd)


def closerange(ex, fn, a, kw):
    if not all(isinstance(x, int) for x in a):
        raise Unsupported("closerange")
    note(ex, "closed", (a[0], a[1], tuple(sorted(k for k in ex.st.ghost if k.startswith("fd:")))))


def chdir(ex, fn, a, kw):
    note(ex, "cwd", ex.coerce(ex.unopt(a[0]), STR))


def close_db(ex, fn, a, kw):
    note(ex, "db closed", True)


def conf_env(v, r, k):
    """Whether a variable is configured, and its value: of the trigger, else
    of the job, else of the global configuration."""
    j = f(v, "job", r)[0]
    ks = J.jstr(k)
    td = f(v, "trigger_data", r)[0]
    jh, jg = v.fm("J.has", (I, J), BOOL), v.fm("J.get", (I, J), JV)
    jh, jg = v.ex.jhas(v.st), v.ex.jget(v.st)
    ek = J.jstr(z3.StringVal("environment"))
    te = jg.read((J.jdid(td), ek)).e
    th = And(jh.read((J.jdid(td), ek)).e, jh.read((J.jdid(te), ks)).e)
    tv = J.js(jg.read((J.jdid(te), ks)).e)
    je = DictV("Job.environment", (j,))
    jhas, jval = v.has(je, k), J.js(v.val(je, k).e)
    ce = v.get("config", "environment")
    chas, cval = v.has(ce, k), J.js(v.val(ce, k).e)
    return Or(th, jhas, chas), Ite(th, tv, Ite(jhas, jval, cval))


def text(e):
    return z3.Function("str." + ("real" if e.sort() == R else "int"), e.sort(), S)(e)


def auto_env(v, r):
    """The automatic variables: name, condition, value."""
    sv = z3.StringVal
    j = f(v, "job", r)[0]
    name, rid = f(v, "name", j, "Job")[0], f(v, "id", r)[0]
    data = v.obj("config", "data_dir", STR).e
    uid = z3.Const("own uid", I)
    known = z3.Const("user known", B)
    oe = DictV("os.environ")
    yield "LOGNAME", known, z3.Function("pw.name", I, S)(uid)
    yield "HOME", known, z3.Function("pw.dir", I, S)(uid)
    yield "PATH", True, Ite(v.has(oe, sv("PATH")), v.val(oe, sv("PATH")).e, sv("/usr/bin:/bin"))
    yield "CI", True, sv("true")
    yield "DSARI", True, sv("true")
    yield "DATA_DIR", True, data
    yield "JOB_NAME", True, name
    yield "JOB_DIR", True, join(data, "runs", name)
    yield "RUN_ID", True, rid
    yield "RUN_DIR", True, join(data, "runs", name, rid)
    yield "SCHEDULE_TIME", True, text(f(v, "schedule_time", r)[0])
    yield "START_TIME", True, text(f(v, "start_time", r)[1])
    yield "TRIGGER_TYPE", True, f(v, "trigger_type", r)[1]
    yield "TRIGGER_DIR", True, join(data, "trigger")
    g = f(v, "concurrency_group", r)
    yield "CONCURRENCY_GROUP", g[0], f(v, "name", g[1], "ConcurrencyGroup")[0]
    for p, fl in (("PREVIOUS_", "previous_run"), ("PREVIOUS_GOOD_", "previous_good_run"),
                  ("PREVIOUS_BAD_", "previous_bad_run")):
        h, x = f(v, fl, r)
        yield p + "RUN_ID", h, f(v, "id", x)[0]
        yield p + "SCHEDULE_TIME", h, text(f(v, "schedule_time", x)[0])
        yield p + "START_TIME", h, text(f(v, "start_time", x)[1])
        yield p + "STOP_TIME", h, text(f(v, "stop_time", x)[1])
        yield p + "EXIT_CODE", h, text(f(v, "exit_code", x)[1])
    jg = f(v, "job_group", j, "Job")
    yield "JOB_GROUP", And(jg[0], jg[1] != sv("")), jg[1]
    je = f(v, "jenkins_environment", j, "Job")[0]
    yield "BUILD_NUMBER", je, rid
    yield "BUILD_ID", je, rid
    yield "BUILD_URL", je, z3.Concat(sv("file://"), join(data, "runs", name, rid, ""))
    yield "NODE_NAME", je, sv("master")
    yield "BUILD_TAG", je, z3.Concat(sv("dsari-"), name, sv("-"), rid)
    yield "JENKINS_URL", je, z3.Concat(sv("file://"), join(data, ""))
    yield "EXECUTOR_NUMBER", je, sv("0")
    yield "WORKSPACE", je, join(data, "runs", name, rid)


def string(ex, v):
    """Whether a value is a string, and which."""
    if v is None:
        return z3.BoolVal(False), z3.StringVal("")
    if isinstance(v, SV) and v.t.name == "opt:str":
        return v.cs
    if isinstance(v, SV) and v.t == JV:
        return J.is_jstr(v.e), J.js(v.e)
    return z3.BoolVal(True), ex.coerce(v, STR).e


def spec_pwd(v, r):
    h, x = conf_env(v, r, z3.StringVal("PWD"))
    d = z3.Function("is a directory", S, B)(x)
    return Ite(And(h, d), x, run_dir(v, r))


def execvpe(ex, fn, a, kw):
    """The new program: everything it gets must be as documented."""
    o, n = View(ex, ex.top_base), None
    r = ex.child_run.e
    prog, args, env = a
    q = ("at execvpe", ex.root)

    def must(g, name, *props):
        ex.require(g, q + (name, props or ("C10",)))
    # command
    j = f(o, "job", r)[0]
    cmd = o.fm("seq:Job.command", (Ref,), SEQ).read((j,)).e
    got = ex.seq_read(args) if ex.is_seq(args) else None
    if got is None:
        raise Unsupported("command of execvpe")
    app = z3.Concat(cmd, z3.Unit(f(o, "name", j, "Job")[0]), z3.Unit(f(o, "id", r)[0]))
    ap = f(o, "command_append_run", j, "Job")[0]
    must(Implies(Not(ap), got == cmd), "the command words are the job's")
    must(Implies(ap, got == app), "job name and run ID are appended if configured")
    must(ex.coerce(prog, STR).e == got[0], "the program is the first word")
    # environment
    if not isinstance(env, DictV):
        raise Unsupported("environment of execvpe")
    ex.dictify(env)
    n = View(ex, ex.st)
    auto = list(auto_env(o, r))
    names = [z3.StringVal(x[0]) for x in auto]

    def want(k):
        ch, cv = conf_env(o, r, k)
        ah, av = z3.BoolVal(False), z3.StringVal("")
        for nm, h, x in reversed(auto):
            same = term_eq(k, z3.StringVal(nm))
            ah, av = Ite(same, zb(h), ah), Ite(same, x, av)
        pw = term_eq(k, z3.StringVal("PWD"))
        return Or(pw, ch, ah), Ite(pw, spec_pwd(o, r), Ite(ch, cv, av))
    nm = fconst(S, "name")
    other = And(*[nm != x for x in names], nm != z3.StringVal("PWD"))
    ch, cv = conf_env(o, r, nm)
    hn = n.has(env, nm)
    vn = n.val(env, nm)
    vp, vn = string(ex, vn)
    must(Implies(other, hn == ch), "no other variables than the documented and configured ones", "C09")
    must(Implies(And(other, hn), And(vp, vn == cv)), "a configured variable has its value, the trigger's before the job's"
         " before the global one", "C09")
    for x in [y[0] for y in auto] + ["PWD"]:
        k = z3.StringVal(x)
        wh, wv = want(k)
        h = n.has(env, k)
        must(h == wh, "%s is set exactly when it should be" % x, "C09", *(("C10",) if x == "PWD" else ()))
        vp, vn = string(ex, n.val(env, k))
        must(Implies(h, And(vp, vn == wv)), "%s has the documented value" % x,
             "C09", *(("C10",) if x == "PWD" else ()))
    # directory, group, signals, files
    cwd = ex.st.ghost.get("cwd")
    must(cwd.e == spec_pwd(o, r) if isinstance(cwd, SV) else z3.BoolVal(False), "runs in its directory")
    pg = ex.st.ghost.get("pgrp")
    must(pg.e if isinstance(pg, SV) else z3.BoolVal(False), "is in its own process group")
    for s in RESET:
        must(z3.BoolVal(ex.st.ghost.get("sig:%d" % s) == int(signal.SIG_DFL)), "%s has its default action" % s.name)
    must(z3.BoolVal(ex.st.ghost.get("db closed") is True), "the database connection is given up", "C10", "C07")
    fds = [ex.st.ghost.get("fd:%d" % i) for i in range(3)]
    cl = ex.st.ghost.get("closed")
    ok = isinstance(cl, tuple) and cl[0] == 3 and cl[1] >= 1024
    must(z3.BoolVal(ok), "no other descriptors are left")
    files = [ex.st.objs[x].fields if x else None for x in fds]

    def is_file(x, path, modes):
        if x is None or x["mode"] not in modes:
            return z3.BoolVal(False)
        return x["path"].e == path
    must(is_file(files[0], z3.StringVal(os.devnull), ("r", "rb")), "standard input is /dev/null")
    out = join(run_dir(o, r), "output.txt")
    for i, w in ((1, "output"), (2, "error")):
        must(is_file(files[i], out, ("w", "wb", "a", "ab")), "standard %s is the output file" % w)
    must(z3.BoolVal(fds[1] is not None and fds[1] == fds[2] or
                    all(x is not None and x["mode"] in ("a", "ab") for x in files[1:])),
         "standard output and error do not overwrite each other")
    must(z3.BoolVal(ex.st.ghost.get("execed") is None), "one program is executed")
    raise EndPath()


EXTERNS = {
    "signal.signal": sig_signal, "os.setpgid": setpgid, "os.setpgrp": lambda ex, fn, a, kw: setpgid(ex, fn, (0, 0), {}),
    "os.getpid": lambda ex, fn, a, kw: SV(INT, [z3.Const("own pid", I)]),
    "os.getuid": lambda ex, fn, a, kw: SV(INT, [z3.Const("own uid", I)]),
    "pwd.getpwuid": getpwuid, "os.path.isdir": isdir, "os.path.exists": exists, "os.dup2": dup2,
    "os.closerange": closerange, "os.chdir": chdir, "db.child_close_fd": close_db, "os.execvpe": execvpe,
    "attr:os.environ": lambda ex, recv: DictV("os.environ"),
}
CHILD_EXTERNS, EXTERNS = EXTERNS, {}


class RunChildExecutor(SchedContract):
    qual = "dsari.daemon.Scheduler.run_child_executor"
    props = ("C09", "C10")
    uses = ()
    externs = CHILD_EXTERNS

    def args(self, ex):
        ex.child_run = sched.run_arg(ex)
        ex.st.dicts["os.environ"] = DictRec(ENV, None, 0)
        ex.dict_fms(DictV("os.environ"))
        return {"run": ex.child_run}

    def pre(self, c):
        o = c.old
        r = c["run"].e
        j = f(o, "job", r)[0]
        P = self.props
        yield P, "the run has started", f(o, "start_time", r)[0]
        yield P, "the run has a trigger type", f(o, "trigger_type", r)[0]
        for fl in ("previous_run", "previous_good_run", "previous_bad_run"):
            h, x = f(o, fl, r)
            yield P, "previous runs are complete", Implies(h, And(
                *[f(o, n, x)[0] for n in ("start_time", "stop_time", "exit_code")]))
        cmd = o.fm("seq:Job.command", (Ref,), SEQ).read((j,)).e
        yield P, "there is a command", z3.Length(cmd) > 0
        td = f(o, "trigger_data", r)[0]
        yield P, "trigger data is a dict", J.is_jdict(td)
        ex = c.ex
        jh, jg = ex.jhas(o.st), ex.jget(o.st)
        ek = J.jstr(z3.StringVal("environment"))
        te = jg.read((J.jdid(td), ek)).e
        has = jh.read((J.jdid(td), ek)).e
        yield P, "a trigger's environment is a dict", Implies(has, J.is_jdict(te))
        yield P, "of strings", All([J], lambda k: Implies(And(has, jh.read((J.jdid(te), k)).e), And(
            J.is_jstr(k), J.is_jstr(jg.read((J.jdid(te), k)).e))))
        je, ce = DictV("Job.environment", (j,)), o.get("config", "environment")
        yield P, "configured environments are of strings", All([S], lambda k: [
            Implies(o.has(je, k), J.is_jstr(o.val(je, k).e)), Implies(o.has(ce, k), J.is_jstr(o.val(ce, k).e))])

    def modifies(self, c):
        return [("F", "seq:Job.command")]

    def post(self, c):
        yield self.props, "the process never returns", z3.BoolVal(False)


UNITS = [RunChildExecutor]
