"""Runs the real daemon against a simulated kernel, clock and processes.

Everything the daemon can observe is real (its code, its files, its database,
the process it forks) except the clock, sleeping, signals, the ends of
processes and the final exec, which records what it was given. One scenario
runs at a time, in this process, inside its own scratch directory.
"""
import ctypes
import heapq
import json
import os
import random
import signal
import sys
import time

REAL = {n: getattr(os, n) for n in ("fork", "kill", "killpg", "wait4", "wait3", "waitpid", "wait", "execvpe", "execve",
                                    "execv", "execvp", "_exit", "open", "remove", "rename")}
REAL_SLEEP = time.sleep
REAL_SIGNAL = signal.signal
REAL_GETSIGNAL = signal.getsignal
_lib = ctypes.CDLL(None)
NS = ctypes.c_longlong.in_dll(_lib, "sim_ns")
STEP = ctypes.c_longlong.in_dll(_lib, "sim_step")

CUR = None
MAIN = os.getpid()


class SimEnd(BaseException):
    """The end of the simulated time."""


class Hang(BaseException):
    pass


class Violation(Exception):
    pass


def real_now():
    return time.clock_gettime(time.CLOCK_MONOTONIC_RAW)


def patch():
    def via(name):
        def call(*a, **kw):
            if CUR is None:
                return REAL[name](*a, **kw)
            return getattr(CUR, "os_" + name)(*a, **kw)
        call.__name__ = name
        return call
    for n in ("fork", "kill", "killpg", "wait4", "wait3", "waitpid", "wait", "execvpe", "execve", "execv", "execvp"):
        setattr(os, n, via(n))

    def sleep(d):
        return REAL_SLEEP(d) if CUR is None else CUR.sleep(d)
    time.sleep = sleep

    def sig(n, h):
        return REAL_SIGNAL(n, h) if CUR is None else CUR.signal(n, h)
    signal.signal = sig

    def getsig(n):
        return REAL_GETSIGNAL(n) if CUR is None else CUR.sigs.get(int(n), signal.SIG_DFL)
    signal.getsignal = getsig

    def hook(ev, args):
        if CUR is not None and ev == "open" and not CUR.busy:
            p = args[0]
            if isinstance(p, (str, bytes)):
                CUR.opened(os.fsdecode(p))
    sys.addaudithook(hook)
    REAL_SIGNAL(signal.SIGVTALRM, alarm)


def alarm(signum, frame):
    s = CUR
    if s is None:
        return
    at = NS.value / 1e9
    if s.last_alarm is not None and s.progress == s.last_alarm:
        s.stuck += 1
        if s.stuck >= 2:
            raise Hang("stuck at %r in %s" % (at, frame.f_code.co_name))
    else:
        s.stuck = 0
    s.last_alarm = s.progress


class Proc:
    def __init__(self, pid, plan, now):
        self.pid, self.plan, self.start = pid, plan, now
        self.end = None         # when it ended
        self.status = None
        self.reaped = None
        self.signals = []


class Sim:
    """The simulated kernel. `model` gets to see everything that happens."""

    def __init__(self, start, step, seed):
        self.r = random.Random("sim-%s" % seed)
        self.t0 = start
        NS.value = int(start * 1e9)
        STEP.value = step
        self.q, self.seq = [], 0
        self.procs = {}
        self.next_pid = 70000
        self.sigs = {int(signal.SIGPIPE): signal.SIG_IGN, int(signal.SIGINT): signal.default_int_handler}
        self.busy = 0
        self.progress = 0
        self.last_alarm, self.stuck = None, 0
        self.blocked = False
        self.model = None
        self.config_main = None
        self.record = None
        self.plan_for = None
        self.in_child = False
        self.trace_at = []      # (line count, signal) to be delivered
        self.lines = 0

    # ------------------------------------------------------------ time
    @property
    def now(self):
        return NS.value / 1e9

    def at(self, t, fn, *a):
        self.seq += 1
        heapq.heappush(self.q, (t, self.seq, fn, a))

    def advance(self, t):
        while self.q and self.q[0][0] <= t:
            when, _, fn, a = heapq.heappop(self.q)
            if when > self.now:
                NS.value = int(when * 1e9)
            self.progress += 1
            fn(*a)
        if t > self.now:
            NS.value = int(round(t * 1e9))
        self.progress += 1

    def sleep(self, d):
        if d < 0:
            raise ValueError("sleep length must be non-negative")
        self.observe("sleep")
        self.blocked = True
        try:
            self.advance(self.now + float(d))
        finally:
            self.blocked = False
        self.observe("slept")

    # ------------------------------------------------------------ signals
    def signal(self, n, h):
        old = self.sigs.get(int(n), signal.SIG_DFL)
        self.sigs[int(n)] = h
        return old

    def deliver(self, n, frame=None):
        h = self.sigs.get(int(n), signal.SIG_DFL)
        self.model.signalled(int(n), self.blocked)
        if callable(h):
            h(int(n), frame)
        elif h == signal.SIG_DFL:
            self.model.bad(("C22",), "signal %d is not handled" % n)

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.endswith(self.traced):
            return None
        if frame.f_code.co_name in ("__init__", "signal_handler", "main"):
            return None
        return self.trace_line

    traced = ("dsari/daemon.py",)

    def trace_line(self, frame, event, arg):
        if event == "line" and not self.in_child:
            self.lines += 1
            while self.trace_at and self.lines >= self.trace_at[0][0]:
                n = self.trace_at.pop(0)[1]
                self.deliver(n, frame)
        return self.trace_line

    # ------------------------------------------------------------ processes
    def os_fork(self):
        self.observe("fork")
        plan = self.model.forking()
        self.busy += 1
        try:
            if os.path.exists(self.record):
                REAL["remove"](self.record)
        finally:
            self.busy -= 1
        pid = REAL["fork"]()
        if pid == 0:
            self.in_child = True
            return 0
        REAL["waitpid"](pid, 0)
        self.next_pid += 1
        p = Proc(self.next_pid, plan, self.now)
        self.procs[p.pid] = p
        rec = None
        self.busy += 1
        try:
            with open(self.record) as f:
                rec = json.load(f)
        except Exception as e:
            rec = {"error": "no exec: %s" % e}
        finally:
            self.busy -= 1
        p.rec = rec
        if plan.get("duration") is not None:
            self.at(self.now + plan["duration"], self.ends, p, plan["status"])
        self.model.forked(p, rec)
        return p.pid

    def ends(self, p, status):
        if p.end is None:
            self.model.ending(p)
            p.end, p.status = self.now, status

    def child_record(self, what):
        self.busy += 1
        with open(self.record + ".tmp", "w") as f:
            json.dump(what, f, default=repr)
        REAL["rename"](self.record + ".tmp", self.record)
        REAL["_exit"](0)

    def os_execvpe(self, file, args, env):
        if not self.in_child:
            self.model.bad(("C10",), "exec in the daemon itself")
            raise SimEnd()
        fds = {}
        for fd in os.listdir("/proc/self/fd"):
            fd = int(fd)
            try:
                fds[fd] = (os.readlink("/proc/self/fd/%d" % fd), os.get_inheritable(fd),
                           __import__("fcntl").fcntl(fd, 3))
            except OSError:
                pass
        try:
            st = {str(i): list(os.fstat(i))[:3] for i in (0, 1, 2)}
        except OSError:
            st = {}
        self.child_record({
            "file": file, "args": list(args), "env": dict(env), "cwd": os.getcwd(),
            "pgid": os.getpgid(0), "pid": os.getpid(), "fds": fds, "st": st,
            "typed": all(type(k) is str and type(v) is str for k, v in env.items()),
            "sigs": {str(k): ("fn" if callable(v) else int(v)) for k, v in self.sigs.items()},
            "mask": [int(x) for x in signal.pthread_sigmask(signal.SIG_BLOCK, [])],
            "closed": getattr(self, "db_closed", None),
        })

    def os_execve(self, file, args, env):
        self.os_execvpe(file, args, env)

    def os_execv(self, file, args):
        self.os_execvpe(file, args, os.environ)

    os_execvp = os_execv

    def reap(self, p):
        p.reaped = self.now
        self.model.reaped(p)
        return (p.pid, p.status, None)

    def os_wait4(self, pid, options):
        self.observe("wait")
        while True:
            z = [p for p in self.procs.values() if p.end is not None and p.reaped is None and
                 (pid == -1 or p.pid == pid)]
            if z:
                return self.reap(z[self.r.randrange(len(z))])
            if not [p for p in self.procs.values() if p.reaped is None and (pid == -1 or p.pid == pid)]:
                raise ChildProcessError(10, "No child processes")
            if options & os.WNOHANG:
                return (0, 0, None)
            if not self.q:
                raise SimEnd()
            self.blocked = True
            try:
                self.advance(self.q[0][0])
            finally:
                self.blocked = False

    def os_wait3(self, options):
        return self.os_wait4(-1, options)

    def os_waitpid(self, pid, options):
        return self.os_wait4(pid, options)[:2]

    def os_wait(self):
        return self.os_wait4(-1, 0)[:2]

    def os_kill(self, pid, sig):
        self.observe("kill")
        if self.in_child:
            return
        p = self.procs.get(pid)
        if p is None or p.reaped is not None:
            self.model.bad(("C05", "C06"), "signal %d sent to process %d, which is no run in progress" % (sig, pid))
            raise ProcessLookupError(3, "No such process")
        p.signals.append((self.now, int(sig)))
        self.model.killed(p, int(sig))
        if p.end is not None or sig == 0:
            return
        if sig == signal.SIGKILL:
            self.at(self.now + p.plan.get("kill_delay", 0.01), self.ends, p, 9)
        elif sig == signal.SIGTERM:
            how = p.plan.get("on_term", ("die", 0.02))
            if how[0] == "die":
                self.at(self.now + how[1], self.ends, p, 15)
            elif how[0] == "exit":
                self.at(self.now + how[1], self.ends, p, how[2] << 8)

    def os_killpg(self, pid, sig):
        return self.os_kill(pid, sig)

    # ------------------------------------------------------------ observing
    def observe(self, kind):
        if self.in_child or self.busy:
            return
        self.busy += 1
        try:
            self.model.observe(kind)
        finally:
            self.busy -= 1

    def opened(self, path):
        if self.in_child or self.busy or path != self.config_main:
            return
        self.busy += 1
        try:
            self.model.config_read()
        finally:
            self.busy -= 1
