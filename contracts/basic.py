"""Contracts of the daemon's helper functions."""
import z3

from pyvc.core import *
from pyvc.core import And, Or, Not, Implies, Iff, Ite, term_eq
from pyvc.exec import norm
from pyvc.contract import Contract, All, Ex, View


def os_wait4(ex, fn, a, kw):
    """The kernel's report: no process, or one which has ended with a status
    (exit code in the high byte; or signal in the low bits, core flag)."""
    if ex.st.ghost.get("wait_args") is not None:
        pid0 = ex.st.ghost["wait_args"]
        q = ("at wait4", ex.root)
        ex.require(ex.coerce(a[0], INT).e == pid0.e, q + ("waits for the processes asked for", ("C08",)))
        ex.require(ex.coerce(a[1], INT).e == 1, q + ("waits with the options asked for", ("C08", "C18")))
    kpid = fconst(I, "kpid")
    ex.st.assume(kpid >= 0)
    exited, core = fconst(B, "exited"), fconst(B, "core")
    code, sig = fconst(I, "code"), fconst(I, "sig")
    ex.st.assume(And(code >= 0, code <= 255, sig >= 1, sig <= 126))
    status = SV(INT, [z3.If(kpid == 0, z3.IntVal(0), z3.If(
        exited, code * 256, sig + z3.If(core, z3.IntVal(128), z3.IntVal(0))))])
    ex.st.ghost["wait"] = (status.e, exited, code, sig, core, kpid)
    return (SV(INT, [kpid]), status, SV(OpaqueT("rusage"), [fconst(I, "ru")]))


def deadline(ex, fn, a, kw):
    v = fresh(DT, "deadline")
    ex.st.ghost["deadline"] = v
    return v


def wait_sleep(ex, fn, a, kw):
    d, n = ex.st.ghost.get("deadline"), ex.st.ghost.get("nows")
    q = ("at sleep", ex.root)
    ok = isinstance(d, SV) and isinstance(n, tuple)
    ex.require(n[-1].cs[0] < d.cs[0] if ok else z3.BoolVal(False),
               q + ("sleeps only before the deadline in force", ("C18", "C08")))
    s = ex.coerce(a[0], REAL).e
    ex.require(And(s <= 1, s >= 0), q + ("sleeps at most a second at a time", ("C18", "C08")))
    ex.st.ghost["deadline"] = None


class WaitDeadline(Contract):
    qual = "dsari.daemon.wait_deadline"
    props = ("C08", "C18", "C22")
    externs = {"os.wait4": os_wait4, "param.deadline": deadline, "time.sleep": wait_sleep}

    def setup(self, ex):
        L = {"pid": fresh(INT, "pid"), "options": 1, "deadline": ExtV("param.deadline"),
             "interval": fresh(REAL, "interval")}
        ex.st.ghost["wait_args"] = L["pid"]
        return L

    def requires(self, c):
        i = c["interval"]
        if not isinstance(i, (int, float)):
            i = c.ex.coerce(i, REAL)
        ok = And(i.e > 0, i.e <= 1) if isinstance(i, SV) else z3.BoolVal(0 < i <= 1)
        yield ("C18",), "looks again at least every second", ok
        if c.ex.root != self.qual:
            ex = c.ex
            yield ("C08",), "waits for any run", z3.BoolVal(c["pid"] == -1)
            yield ("C08", "C18"), "waits without blocking", z3.BoolVal(c["options"] == 1)
            # the deadline follows the next wake-up
            sv = ex.st
            ex.st = sv.clone()
            probe = fresh(DT, "probe")
            ex.st.objs["self"].fields["next_wakeup"] = probe
            g = False
            try:
                g = ex.eq(ex.call(c["deadline"], [], {}), probe)
            except (Unsupported, Infeasible):
                raise
            except Exception:
                pass
            finally:
                ex.st = sv
            yield ("C08", "C18", "C22"), "waits up to the next wake-up in force at each moment", zb(g)

    def returns(self, c):
        ex = c.ex
        pid, code = fresh(INT, "child_pid"), fresh(INT, "child_exit")
        ex.st.assume(pid.e >= 0)
        ex.st.ghost["waited"] = (pid, code)
        return (pid, code, SV(OpaqueT("rusage"), [fconst(I, "ru")]))

    def ensures(self, c):
        if c.ex.root != self.qual:
            return
        p, code, ru = c.ret
        pe = c.ex.coerce(p, INT).e
        g = c.new.st.ghost.get("wait")
        if not isinstance(g, tuple):
            yield ("C08",), "reports what the kernel reported", z3.BoolVal(False)
            return
        status, exited, xcode, sig, core, kpid = g
        ce = c.ex.coerce(code, INT).e
        yield ("C08",), "reports the process the kernel reported", pe == kpid
        yield ("C08",), "exit code of a process which exited", Implies(And(kpid != 0, exited), ce == xcode)
        yield ("C08",), "128 plus the signal of a process ended by one", Implies(And(kpid != 0, Not(exited)),
                                                                                ce == 128 + sig)
        d, n = c.new.st.ghost.get("deadline"), c.new.st.ghost.get("nows")
        if isinstance(d, SV) and isinstance(n, tuple):
            yield ("C08",), "gives up only at the deadline in force", Implies(pe == 0, n[-1].cs[0] >= d.cs[0])
        else:
            yield ("C08",), "gives up only at the deadline in force", pe != 0


class Backoff(Contract):
    qual = "dsari.daemon.backoff"
    props = ("C18",)

    def setup(self, ex):
        return {"a": fresh(DT, "a"), "b": fresh(DT, "b")}

    def requires(self, c):
        # the defaults are part of the daemon's behaviour: it gives no others
        return []

    def returns(self, c):
        return fresh(TD, "backoff")

    def ensures(self, c):
        r = c.ret.e
        lo, hi = z3.RealVal(5), z3.RealVal(300)
        d = c["b"].cs[0] - c["a"].cs[0]
        yield ("C18",), "at least the least delay", r >= lo
        yield ("C18",), "at most the greatest delay", r <= hi
        p = z3.Function("pow", R, R, R)
        lg = z3.Function("log", R, R)
        x = p(z3.RealVal(2), lg(d))
        yield ("C18",), "delay is a non-decreasing function of the lateness", \
            r == z3.If(d <= 0, lo, z3.If(x < lo, lo, z3.If(x > hi, hi, x)))


UNITS = [WaitDeadline, Backoff]
