"""Scenarios for the daemon (generated from a seed) and the oracle judging them.

The oracle is written from the properties: it keeps its own idea of which runs
are pending and in progress, fed by what the daemon does to the outside (forks,
signals, files read and removed, database records, sleeping), and complains
whenever the daemon does something it may not, or does not do something in time.
"""
import datetime
import json
import math
import os
import pwd
import random
import shutil
import signal
import sqlite3
import sys
import time
import zlib

import yaml

from sim import Sim, SimEnd, Hang
import sim as simmod

TOL = 1.4           # seconds a timely action may take
UTC = datetime.timezone.utc


def iso(t):
    return datetime.datetime.fromtimestamp(t, UTC).strftime("%Y-%m-%dT%H:%M:%S.%f")


# ---------------------------------------------------------------- schedules
class Sec:
    """Every s seconds (a cron expression with a field of seconds)."""

    def __init__(self, s):
        self.s = s
        self.text = "* * * * * */%d" % s if s < 60 else "* * * * * 0"

    def next(self, name, t):
        """Window of the next time strictly after t."""
        k = math.floor(t / self.s + 1e-9) + 1
        occ = k * self.s
        return (occ - 0.001, occ + 1.001)


class Once:
    """A recurrence of the given period ending at the given time."""

    def __init__(self, s, until, local=False):
        self.s, self.until = s, until
        self.text = "RRULE:FREQ=SECONDLY;INTERVAL=%d;UNTIL=%s%s" % (
            s, datetime.datetime.fromtimestamp(until, UTC).strftime("%Y%m%dT%H%M%S"), "" if local else "Z")

    def next(self, name, t):
        crc = zlib.crc32(name.encode()) & 0xFFFFFFFF
        off = crc / 0xFFFFFFFF
        base = t - ((t - crc) % 86400)
        k = math.floor((t - base) / self.s + 1e-9) + 1
        # whole seconds only, from the anchor
        occ = base + k * self.s
        if occ > self.until + 1e-6:
            return None
        return (occ + off - 1.002, occ + off + 0.002)


NAMES = ["a", "b-1", "job c", "x@y:z", "D.daily", "_u+v", "0"]
GNAMES = ["g1", "g 2", "h.3"]
WORDS = ["/bin/true", "echo", "a b", "-x", "", "$HOME", "*", "é", "q'uo\"te", "x=y", "--", "\n"]


def plan(r, prof):
    k = r.random()
    if k < 0.55:
        d = r.uniform(0.01, 6)
    elif k < 0.85:
        d = r.uniform(6, 45)
    else:
        d = r.uniform(45, 400)
    if r.random() < 0.7:
        status = r.choice([0, 0, 1, 2, 127, 128, 137, 255, r.randrange(256)]) << 8
    else:
        status = r.choice([1, 2, 6, 9, 11, 15, r.randrange(1, 65)]) | (128 if r.random() < 0.5 else 0)
    if prof.get("ignore_term") and r.random() < 0.5:
        t = r.choice([("ignore",), ("exit", r.uniform(0, 40), r.randrange(256)), ("die", r.uniform(0.01, 12))])
    else:
        t = ("die", r.uniform(0.001, 0.5))
    p = {"duration": round(d, 3), "status": status, "on_term": t, "kill_delay": r.choice([0.001, 0.3])}
    if r.random() < prof.get("return_data", 0.25):
        fs = {}
        for fn in r.sample(["return_data.json", "return_data.yaml"], r.choice([1, 1, 2])):
            fs[fn] = r.choice(['{"a": 1}', '[1, 2, {"x": null}]', '"text"', "42", "null", "not: [valid", "{",
                               "", "2020-01-02", "a: 2020-01-02 03:04:05", "\xff\xfe", "? {a: 1}\n: 2", ".inf",
                               "{1: 2}", "!!python/object:os.system x", '{"é": "\\u00e9"}', "[" * 100000])
        p["files"] = fs
    return p


def expected_return(files):
    """What the return data of a run is, None if there is none that is usable."""
    for fn in ("return_data.json", "return_data.yaml"):
        if fn in files:
            raw = files[fn]
            if len(raw) > 50000 or "\xff" in raw:
                return None
            try:
                v = json.loads(raw) if fn.endswith("json") else yaml.safe_load(raw)
                return ("data", json.loads(json.dumps(v, default=str)))
            except Exception:
                return None
    return None


def environment(r, special=True):
    ks = ["A", "B_1", "JOB_NAME", "PATH", "HOME", "CI", "X Y", "RUN_ID", "é", "PREVIOUS_RUN_ID", "BUILD_ID"]
    vs = ["", "v", 1, 2.5, "a=b", "x\ny", "ü", 10**20, -3, "/usr/local/bin"]
    e = {k: r.choice(vs) for k in r.sample(ks, r.randrange(4))}
    if special and r.random() < 0.25:
        e["PWD"] = r.choice(["/", "/nonexistent/dir", "/usr", "/dev/null"])
    return e


class Gen:
    def __init__(self, seed, prof):
        self.seed, self.prof = seed, prof
        self.r = random.Random("scenario-%s" % seed)
        r = self.r
        self.start = 1600000000 + r.randrange(0, 86400 * 300) + r.uniform(0.2, 0.8)
        self.horizon = prof.get("horizon", r.choice([150, 400, 900]))
        self.step = r.choice([1000, 1000, 3000, 100000])
        self.base = {}

    def groups(self):
        r = self.r
        gs = {}
        for n in GNAMES[:r.choice(self.prof.get("ngroups", [0, 1, 2]))]:
            if r.random() < 0.7:
                gs[n] = {"max": r.choice([1, 1, 2, 3, 0] if self.prof.get("zero_max") else [1, 1, 2, 3])}
            else:
                gs[n] = None        # known from the jobs only
        return gs

    def job(self, name, gs):
        r, p = self.r, self.prof
        j = {"command": r.choice([["/bin/true"], r.sample(WORDS, 3), "sh -c 'exit 0' x\\ y", ["x"]])}
        if j["command"] and isinstance(j["command"], list) and not j["command"][0]:
            j["command"] = ["run"] + j["command"]
        k = r.random()
        sched = None
        if k < 0.65:
            sched = Sec(r.choice([5, 10, 15, 20, 30, 60]))
        elif k < 0.8:
            sched = Once(r.choice([7, 30, 61]), int(self.start + r.uniform(-100, self.horizon)))
        if sched is not None:
            j["schedule"] = sched.text
        elif r.random() < 0.3:
            j["schedule"] = None
        j["_sched"] = sched
        if r.random() < 0.3:
            j["schedule_timezone"] = "UTC"
        if r.random() < p.get("concurrent", 0.3):
            j["concurrent_runs"] = True
        if gs and r.random() < p.get("grouped", 0.7):
            j["concurrency_groups"] = r.sample(sorted(gs), r.randrange(1, len(gs) + 1))
        if r.random() < p.get("limited", 0.3):
            j["max_execution"] = r.choice([1, 3.5, 10, 25.25, 61, 90])
            if r.random() < 0.8:
                j["max_execution_grace"] = r.choice([0, 0.5, 2, 5, 7.5, 20, 61])
        if r.random() < 0.35:
            j["environment"] = environment(r)
        if r.random() < 0.3:
            j["command_append_run"] = r.random() < 0.8
        if r.random() < 0.3:
            j["jenkins_environment"] = r.random() < 0.8
        if r.random() < 0.2:
            j["render_reports"] = False
        return j

    def config(self, prev=None):
        r, p = self.r, self.prof
        gs = self.groups() if prev is None or r.random() < 0.5 else dict(prev["_groups"])
        if prev is not None and r.random() < 0.4:
            for n in list(gs):
                if gs[n] is not None and r.random() < 0.5:
                    gs[n] = {"max": r.choice([1, 2, 3])}
        c = {"_groups": gs, "jobs": {}, "_jobs": {}}
        names = r.sample(NAMES, r.choice(p.get("njobs", [1, 2, 3, 4])))
        if prev is not None:
            names = [n for n in prev["_jobs"] if r.random() < 0.75] or names
            if r.random() < 0.3:
                names = list(dict.fromkeys(names + [r.choice(NAMES)]))
        jg = None
        if len(names) > 2 and r.random() < 0.3:
            jg = names[:2]
        for n in names:
            if prev is not None and n in prev["_jobs"] and r.random() < 0.6:
                j = {k: v for k, v in prev["_jobs"][n].items() if k != "job_group"}
                if "concurrency_groups" in j:
                    j["concurrency_groups"] = [g for g in j["concurrency_groups"] if g in gs]
            else:
                j = self.job(n, gs)
            if jg and n in jg:
                if n == jg[0]:
                    tpl = j
                j = dict(tpl, job_group="grp")
                c["job_groups"] = {"grp": dict({k: v for k, v in tpl.items() if k[0] != "_"}, job_names=jg)}
            else:
                c["jobs"][n] = {k: v for k, v in j.items() if k[0] != "_"}
            c["_jobs"][n] = j
        cg = {n: v for n, v in gs.items() if v is not None}
        if cg:
            c["concurrency_groups"] = cg
        if prev is None:
            if r.random() < p.get("kill_runs", 0.5):
                c["shutdown_kill_runs"] = True
                if r.random() < 0.7:
                    c["shutdown_kill_grace"] = r.choice([0.5, 3, 10, 30, 75])
            elif r.random() < 0.3:
                c["shutdown_kill_grace"] = 5
            if r.random() < 0.4:
                c["environment"] = environment(r, special=False)
            self.base = {k: c[k] for k in ("shutdown_kill_runs", "shutdown_kill_grace", "environment") if k in c}
        else:
            c.update(self.base)
            if r.random() < 0.2:
                c["environment"] = environment(r, special=False)
        return c

    def bad_config(self, good):
        r = self.r
        c = json.loads(json.dumps({k: v for k, v in good.items() if k[0] != "_"}))
        k = r.randrange(9)
        if k == 0:
            return "{not json"
        if k == 1:
            return "[]"
        if k == 2:
            c["jobs"]["a/b"] = {"command": ["x"]}
        elif k == 3:
            c["jobs"]["nocmd"] = {}
        elif k == 4:
            c["jobs"]["bad"] = {"command": ["x"], "schedule": "61 * * * *"}
        elif k == 5:
            c["jobs"]["bad"] = {"command": ["x"], "max_execution": "10"}
        elif k == 6:
            c["environment"] = {"A": [1]}
        elif k == 7:
            c["jobs"] = "text"
        else:
            c["jobs"]["bad"] = {"command": ["x"], "schedule": 5}
        return json.dumps(c)

    def trigger(self, j, t):
        """-> (file type, content bytes, what is expected)"""
        r, p = self.r, self.prof
        ft = r.choice(["json", "json", "yaml"])
        now = t
        if r.random() < p.get("bad_trigger", 0.2):
            raw = r.choice([
                "[]", "5", "null", "", '"x"', "{", "{'a': [}", '{"environment": []}', '{"environment": {"A": null}}',
                '{"environment": {"A": {"b": 1}}}', '{"environment": {"A": true}}', '{"schedule_time": "garbage"}',
                '{"schedule_time": 1e400}', '{"schedule_time": NaN}', '{"schedule_time": 1e17}',
                '{"schedule_time": {}}', '{"schedule_time": [1]}', '{"schedule_time": "99999999999999999999"}',
                '{"environment": "A=B"}', '{"environment": 5}',
            ])
            b = raw.encode()
            if r.random() < 0.15:
                b = r.choice([b"\xff\xfe\x00", b"\x00", b"[" * 100000, b'{"a": "\x80"}', b"{" * 5000,
                              b"&a [*a, *a]", b"- !!binary |\n  x", b"%YAML 9.9\n---\n{}"])
                return ft, b, "maybe"
            if ft == "yaml" and raw in ("{'a': [}", '{"schedule_time": NaN}', '{"schedule_time": 1e400}',
                                        '{"schedule_time": 1e17}'):
                return ft, b, "maybe"
            return ft, b, None
        d = {}
        when = now
        k = r.random()
        if k < 0.25:
            when = round(now + r.choice([-3600, -1, 0, 5, 20, 100, 250]) + r.random(), 2)
            if r.random() < 0.3:
                when = float(int(when))
                d["schedule_time"] = int(when)
            else:
                d["schedule_time"] = when
        elif k < 0.45:
            when = float(int(now + r.choice([-5, 3, 40, 130])))
            z = r.choice([None, "America/New_York", "Asia/Kolkata", "offset", "Z"])
            dt = datetime.datetime.fromtimestamp(when, UTC)
            if z is None:
                d["schedule_time"] = dt.strftime("%Y-%m-%d %H:%M:%S")
            elif z == "Z":
                d["schedule_time"] = dt.strftime("%Y-%m-%dT%H:%M:%SZ")
            elif z == "offset":
                o = datetime.timezone(datetime.timedelta(hours=5, minutes=30))
                d["schedule_time"] = dt.astimezone(o).isoformat()
                if r.random() < 0.3:
                    d["schedule_timezone"] = "America/New_York"
            else:
                import dateutil.tz
                l = dt.astimezone(dateutil.tz.gettz(z))
                if getattr(l, "fold", 0) or dateutil.tz.datetime_ambiguous(l.replace(tzinfo=None),
                                                                           dateutil.tz.gettz(z)):
                    z = None
                    d["schedule_time"] = dt.strftime("%Y-%m-%d %H:%M:%S")
                else:
                    d["schedule_time"] = l.strftime("%Y-%m-%d %H:%M:%S")
                    d["schedule_timezone"] = z
        elif k < 0.5:
            d["schedule_timezone"] = "America/New_York"
        if r.random() < 0.5:
            d["environment"] = environment(r)
        if r.random() < 0.3:
            d["extra"] = r.choice([1, [1, {"a": None}], "x", {"deep": {"er": [True]}}, "é"])
        if ft == "yaml":
            b = yaml.safe_dump(d, allow_unicode=r.random() < 0.5).encode()
            if b.strip() == b"{}" and r.random() < 0.5:
                b = b"{}\n# comment\n"
            back = yaml.safe_load(b)
            d = json.loads(json.dumps(back, default=str))
        else:
            b = json.dumps(d, ensure_ascii=r.random() < 0.5).encode()
        if "environment" in d:
            d["environment"] = {k: v if isinstance(v, str) else str(v) for k, v in d["environment"].items()}
        return ft, b, {"data": d, "time": when, "given": "schedule_time" in d}


class Pend:
    def __init__(self, job, kind, lo, hi, data, respawn, added):
        self.job, self.kind, self.lo, self.hi, self.data, self.respawn, self.added = \
            job, kind, lo, hi, data, respawn, added
        self.ok_since = None
        self.blocked = False
        self.maybe = False

    def __repr__(self):
        return "<pending %s of %s, due %s..%s%s>" % (self.kind, self.job, iso(self.lo), iso(self.hi),
                                                    " recurring" if self.respawn else "")


class Rn:
    pass


class Oracle:
    """What the daemon may and must do."""

    def __init__(self, gen, scratch):
        self.g, self.r, self.dir = gen, gen.r, scratch
        self.etc = os.path.join(scratch, "etc")
        self.var = os.path.join(scratch, "var")
        os.makedirs(self.etc)
        os.makedirs(self.var)
        self.main = os.path.join(self.etc, "dsari.json")
        self.sim = Sim(gen.start, gen.step, gen.seed)
        self.sim.model = self
        self.sim.config_main = self.main
        self.sim.record = os.path.join(scratch, "exec.json")
        self.found = []
        self.log = []
        self.pend = []
        self.run = []           # in progress
        self.done = []          # completed records expected
        self.files = {}         # trigger path -> (job, expectation, appeared)
        self.shut = []          # times of shutdown requests
        self.shut_strict = None
        self.hups = []          # SIGHUPs not yet acted on
        self.reading = 0
        self.boot = True
        self.forkrec = None
        self.last_hint = 0
        self.starts = 0
        self.killed_n = 0
        self.reloads = 0
        self.offsets = {}
        self.db = None
        self.triggers = 0
        self.ended = None

    # -------------------------------------------------- reporting
    def note(self, *a):
        self.log.append("%s  %s" % (iso(self.sim.now), " ".join(str(x) for x in a)))

    def bad(self, props, msg):
        self.note("VIOLATION", ",".join(props), msg)
        if len(self.found) < 20:
            self.found.append((tuple(props), msg, iso(self.sim.now)))

    # -------------------------------------------------- setting up
    def write_config(self, c):
        if isinstance(c, str):
            raw = c
        else:
            raw = json.dumps(dict({k: v for k, v in c.items() if k[0] != "_"}, data_dir=self.var))
        with simmod_io(self.sim), open(self.main, "w") as f:
            f.write(raw)
        self.disk = c

    def schema(self):
        c = sqlite3.connect(os.path.join(self.var, "dsari.sqlite3"))
        c.execute("CREATE TABLE runs (job_name text NOT NULL, run_id text PRIMARY KEY, schedule_time real NOT NULL,"
                  " start_time real NOT NULL, stop_time real NOT NULL, exit_code integer NOT NULL,"
                  " trigger_type text NOT NULL, trigger_data text NOT NULL, run_data text NOT NULL)")
        c.execute("CREATE TABLE runs_running (job_name text NOT NULL, run_id text PRIMARY KEY, schedule_time real"
                  " NOT NULL, start_time real NOT NULL, trigger_type text NOT NULL, trigger_data text NOT NULL,"
                  " run_data text NOT NULL)")
        c.commit()
        c.close()

    def prepare(self):
        r, g = self.r, self.g
        self.cfg = g.config()
        self.write_config(self.cfg)
        now = g.start
        if r.random() < 0.5:
            # records of an earlier daemon
            self.schema()
            c = sqlite3.connect(os.path.join(self.var, "dsari.sqlite3"))
            for i in range(r.randrange(5)):
                jn = r.choice(list(self.cfg["_jobs"]) + ["gone"])
                st = now - r.uniform(10, 5000)
                rec = {"job": jn, "id": "old-%d" % i, "schedule": st - 1.5, "start": st, "stop": st + r.uniform(0, 5),
                       "code": r.choice([0, 0, 1, 255]), "type": "schedule", "trig": {}, "data": {}}
                self.done.append(rec)
                c.execute("INSERT INTO runs VALUES (?,?,?,?,?,?,?,?,?)", (
                    jn, rec["id"], rec["schedule"], rec["start"], rec["stop"], rec["code"], "schedule", "{}", "{}"))
            for i in range(r.randrange(3)):
                c.execute("INSERT INTO runs_running VALUES (?,?,?,?,?,?,?)", (
                    r.choice(list(self.cfg["_jobs"])), "stale-%d" % i, now - 50, now - 40, "schedule", "{}", "{}"))
            c.commit()
            c.close()
        # what is going to happen
        p = g.prof
        t = now
        prev = self.cfg
        n = r.choice(p.get("triggers", [0, 2, 5, 10]))
        for _ in range(n):
            self.sim.at(now + r.uniform(0.5, g.horizon), self.ev_trigger)
        for _ in range(r.choice(p.get("hups", [0, 0, 1, 2]))):
            self.sim.at(now + r.uniform(1, g.horizon), self.ev_reload)
        for _ in range(r.choice(p.get("usr", [0, 0, 2]))):
            self.sim.at(now + r.uniform(1, g.horizon), self.ev_signal, r.choice([signal.SIGUSR1, signal.SIGQUIT]))
        if r.random() < p.get("shutdown", 0.6):
            t = now + r.uniform(1, g.horizon)
            self.sim.at(t, self.ev_signal, r.choice([signal.SIGTERM, signal.SIGINT]))
            for _ in range(r.choice([0, 0, 1, 2])):
                self.sim.at(t + r.choice([0, r.uniform(0, 30)]), self.ev_signal, r.choice(
                    [signal.SIGTERM, signal.SIGINT, signal.SIGUSR1, signal.SIGQUIT]))
            if r.random() < 0.5:
                self.sim.at(t + r.choice([0, 0, r.uniform(0, 30)]), self.ev_reload)
            if r.random() < 0.7:
                self.sim.at(t + r.uniform(0, 20), self.ev_trigger)
        for _ in range(r.choice(p.get("foreign", [0, 0, 0, 2]))):
            self.sim.at(now + r.uniform(1, g.horizon), self.ev_foreign)
        if r.random() < p.get("midline", 0.15):
            for _ in range(r.choice([1, 2, 4])):
                k = int(math.exp(r.uniform(0, math.log(8000))))
                self.sim.trace_at.append((k, r.choice(
                    [signal.SIGHUP, signal.SIGHUP, signal.SIGTERM, signal.SIGINT, signal.SIGUSR1, signal.SIGQUIT])))
            self.sim.trace_at.sort(key=lambda x: x[0])
        self.sim.at(now + g.horizon + 400, self.ev_end)

    def ev_end(self):
        raise SimEnd()

    def ev_signal(self, n):
        self.sim.deliver(n)

    def ev_foreign(self):
        s = self.sim
        p = simmod.Proc(300000 + len(s.procs), {}, s.now)
        p.end, p.status, p.foreign = s.now, 0, True
        s.procs[p.pid] = p

    def ev_reload(self):
        r = self.r
        k = r.random()
        if k < self.g.prof.get("bad_reload", 0.35):
            self.write_config(self.g.bad_config(self.cfg))
        elif k < 0.5:
            self.write_config(self.cfg)
        else:
            c = self.g.config(self.cfg)
            self.write_config(c)
        self.sim.deliver(signal.SIGHUP)

    def ev_trigger(self):
        r = self.r
        n = r.choice(list(self.cfg["_jobs"]) * 4 + ["gone"])
        d = os.path.join(self.var, "trigger", n)
        j = self.cfg["_jobs"].get(n)
        with simmod_io(self.sim):
            os.makedirs(d, exist_ok=True)
            if r.random() < 0.04:
                # something that cannot be read
                p = os.path.join(d, "trigger.json")
                if not os.path.exists(p):
                    os.mkdir(p)
                    self.note("unreadable trigger", n)
                    self.files[p] = [n, "dir", None]
                    self.sim.at(self.sim.now + r.uniform(1, 100), self.ev_rmdir, p)
                    return
            ft, raw, exp = self.g.trigger(n, round(self.sim.now, 3))
            if exp == "maybe" and (j is None or not j.get("concurrent_runs") or j["_sched"]):
                return
            p = os.path.join(d, "trigger." + ft)
            if p in self.files and self.files[p][1] == "dir":
                return
            t = round(self.sim.now, 3)
            with open(p + ".new", "wb") as f:
                f.write(raw)
            os.utime(p + ".new", (t, t))
            os.rename(p + ".new", p)
        if isinstance(exp, dict) and not exp["given"]:
            exp["time"] = t
        # an earlier one may still be there
        self.files[p] = [n, exp, self.sim.now]
        self.triggers += 1
        self.note("trigger", n, ft, raw[:120], "->", exp if exp is None or exp == "maybe" else iso(exp["time"]))

    def ev_rmdir(self, p):
        with simmod_io(self.sim):
            os.rmdir(p)
        self.files.pop(p, None)

    # -------------------------------------------------- the daemon's input
    def signalled(self, n, blocked):
        now = self.sim.now
        self.note("signal", n, "" if blocked else "(in the middle)")
        if n in (signal.SIGTERM, signal.SIGINT):
            self.shut.append((now, blocked, len(self.hups)))
            if len(self.shut) == 1:
                self.clear_pend = now
                if blocked:
                    self.pend = []
                # reloads asked for before may still be acted on
            self.kill_cfg = self.cfg
        elif n == signal.SIGHUP:
            if not self.shut:
                self.hups.append(now)

    def config_read(self):
        """The daemon reads its configuration."""
        now = self.sim.now
        if self.boot:
            return
        if self.ended:
            return
        if self.last_read is not None and now - self.last_read < 1e-9:
            return
        self.last_read = now
        if not self.hups:
            if self.shut:
                # it may look, but nothing may change
                return
            self.bad(("C22",), "the configuration is read without a request")
            return
        self.hups.pop(0)
        self.reloads += 1
        if self.shut and self.shut[0][2] == 0:
            return
        if isinstance(self.disk, str):
            self.note("reload of an invalid configuration")
            return
        self.note("reload", json.dumps({k: v for k, v in self.disk.items() if k[0] != "_"})[:2000])
        self.cfg = self.disk
        gs = self.group_max()
        for x in self.run:
            if x.group is not None and x.group not in gs:
                x.group = None
        self.reset(now)

    def reset(self, now):
        self.pend = []
        for n, j in self.cfg["_jobs"].items():
            self.recur(n, j, now, now)

    def recur(self, n, j, now, added):
        if j["_sched"] is None:
            return
        w = j["_sched"].next(n, now)
        w2 = j["_sched"].next(n, now + 0.01)
        if w is None and w2 is None:
            return
        w = w or w2
        p = Pend(n, "schedule", w[0], (w2 or w)[1], {}, True, added)
        p.maybe = (w2 is None)
        self.pend.append(p)

    def group_max(self):
        gs = {n: v["max"] for n, v in self.cfg["_groups"].items() if v is not None}
        for j in self.cfg["_jobs"].values():
            for g in j.get("concurrency_groups", []):
                gs.setdefault(g, 1)
        return gs

    # -------------------------------------------------- looking at the world
    def cursor(self):
        if self.db is None:
            self.db = sqlite3.connect("file:%s?mode=ro" % os.path.join(self.var, "dsari.sqlite3").replace(
                "?", "%3f"), uri=True)
            self.db.row_factory = sqlite3.Row
        return self.db.cursor()

    def running_records(self):
        c = self.cursor()
        return {x["run_id"]: dict(x) for x in c.execute("SELECT * FROM runs_running").fetchall()}

    def completed_records(self, ids=None):
        c = self.cursor()
        return [dict(x) for x in c.execute("SELECT * FROM runs").fetchall()]

    def consumed(self):
        for p in list(self.files):
            n, exp, t = self.files[p]
            if exp == "dir":
                continue
            if os.path.exists(p):
                now = self.sim.now
                other = os.path.join(os.path.dirname(p), "trigger.json")
                hidden = p.endswith("yaml") and other in self.files
                if not self.shut and n in self.cfg["_jobs"] and not hidden and now > t + 61.5 and not self.hups:
                    self.bad(("C11", "C18"), "trigger of %s not picked up since %s" % (n, iso(t)))
                    self.files[p][2] = now + 1e9
                elif hidden:
                    self.files[p][2] = now
                continue
            del self.files[p]
            self.take(n, exp, p)

    def take(self, n, exp, p):
        now = self.sim.now
        self.note("trigger taken", p)
        if self.shut and (self.shut[0][1] or now > self.shut[0][0] + 0.3):
            self.bad(("C06", "C11"), "a trigger of %s is taken during shutdown" % n)
            return
        j = self.cfg["_jobs"].get(n)
        if j is None:
            self.bad(("C11",), "a trigger of the unknown job %s is removed" % n)
            return
        other = os.path.join(os.path.dirname(p), "trigger.json")
        if p.endswith("yaml") and os.path.exists(other) and self.files.get(other, [0, 0, now])[2] is not None and \
                self.files.get(other, [0, 0, now])[2] < now - 0.001:
            self.bad(("C11",), "trigger.yaml of %s is taken before trigger.json" % n)
        if exp is None:
            return
        if exp == "maybe":
            x = Pend(n, "file", -1e18, 1e18, None, False, now)
            x.maybe = True
            self.pend.append(x)
            return
        x = Pend(n, "file", exp["time"] - 0.002, exp["time"] + 0.002, exp["data"], False, now)
        if not j.get("concurrent_runs"):
            old = [q for q in self.pend if q.job == n]
            for q in old:
                x.respawn = x.respawn or q.respawn
                self.pend.remove(q)
        self.pend.append(x)

    def in_group(self, g):
        return len([x for x in self.run if x.group == g])

    def startable(self, p):
        j = self.cfg["_jobs"].get(p.job)
        if j is None:
            return False
        if not j.get("concurrent_runs") and any(x.job == p.job for x in self.run):
            return False
        gs = j.get("concurrency_groups")
        if gs:
            m = self.group_max()
            return any(self.in_group(g) < m[g] for g in gs)
        return True

    def observe(self, kind):
        now = self.sim.now
        if self.boot:
            return
        self.kind = kind
        self.consumed()
        self.completions()
        if self.shut:
            t0, blocked, _ = self.shut[0]
            if now > t0 + 0.3:
                self.pend = []
        for p in self.pend:
            if p.lo > now or p.maybe:
                continue
            if self.startable(p):
                if p.hi > now:
                    continue
                if p.ok_since is None:
                    p.ok_since = max(now if p.blocked else max(p.hi, p.added), p.added)
                late = 303 if p.blocked else TOL
                if now > p.ok_since + late and not p.__dict__.get("told"):
                    p.told = True
                    self.bad(("C03", "C18", "C01", "C02", "C04") if p.blocked else ("C03", "C18", "C04"),
                             "%r could be started since %s and is not%s" % (
                                 p, iso(p.ok_since), " (retries after being blocked)" if p.blocked else ""))
            else:
                p.blocked = True
                p.ok_since = None
        for x in self.run:
            self.limits(x, now)
        for pr in self.sim.procs.values():
            if pr.end is not None and pr.reaped is None and now > pr.end + TOL and not getattr(pr, "told", False) \
                    and not getattr(pr, "foreign", False):
                pr.told = True
                self.bad(("C18", "C07"), "the end of process %d at %s is not noticed" % (pr.pid, iso(pr.end)))
        if self.hups and not self.shut and now > self.hups[0] + TOL:
            self.bad(("C22", "C18"), "SIGHUP of %s has no effect" % iso(self.hups[0]))
            self.hups = []
        if self.shut and not self.run and now > max(
                [self.shut[0][0]] + [d["seen"] for d in self.done if "seen" in d]) + TOL + 0.5:
            self.bad(("C06", "C22"), "shutdown does not end though no run is in progress")
            raise SimEnd()

    def limits(self, x, now):
        pr = x.proc
        if pr.end is not None or x.finished:
            return
        term = [t for t, s in pr.signals if s == 15]
        kill = [t for t, s in pr.signals if s == 9]
        if x.max and not term and now > x.start + x.max + TOL and not x.told:
            x.told = True
            self.bad(("C05", "C18"), "run of %s beyond its limit since %s is not terminated" % (
                x.job, iso(x.start + x.max)))
        if x.max and term and not kill:
            due = max(x.start + x.max, term[0]) + x.grace
            if now > due + TOL and not x.told:
                x.told = True
                self.bad(("C05", "C18"), "run of %s is not killed after its grace, since %s" % (x.job, iso(due)))
        if self.shut and self.kill_cfg.get("shutdown_kill_runs"):
            t0 = self.shut[0][0]
            tn = self.shut[-1][0]
            if not term and now > t0 + TOL and not x.told:
                x.told = True
                self.bad(("C06", "C22"), "run of %s is not terminated at shutdown" % x.job)
            gr = self.kill_cfg.get("shutdown_kill_grace")
            if gr and not kill and now > tn + gr + TOL and not x.told:
                x.told = True
                self.bad(("C06", "C18"), "run of %s is not killed after the shutdown's grace" % x.job)

    # -------------------------------------------------- what the daemon does
    def killed(self, p, sig):
        now = self.sim.now
        self.killed_n += 1
        self.note("signal %d to %d" % (sig, p.pid))
        x = [x for x in self.run if x.proc is p]
        if not x:
            self.bad(("C05", "C06"), "signal %d to a process that is no run in progress" % sig)
            return
        x = x[0]
        n = len([1 for _, s in p.signals if s == sig])
        if sig not in (15, 9):
            self.bad(("C05", "C06"), "signal %d to run of %s" % (sig, x.job))
            return
        if n > 1:
            self.bad(("C05", "C06"), "signal %d is sent to run of %s %d times" % (sig, x.job, n))
        term = [t for t, s in p.signals if s == 15]
        by_shut = bool(self.shut) and bool(self.kill_cfg.get("shutdown_kill_runs"))
        if sig == 15:
            if not (x.max and now > x.start + x.max - 0.001) and not by_shut:
                self.bad(("C06",) if self.shut else ("C05",),
                         "run of %s started at %s with limit %s gets SIGTERM" % (x.job, iso(x.start), x.max))
        else:
            lim = x.max and term and now > max(x.start + x.max, term[0]) + x.grace - 0.001
            gr = self.kill_cfg.get("shutdown_kill_grace") if by_shut else None
            sd = by_shut and gr and now >= self.shut[0][0] + gr - 0.001
            if not lim and not sd:
                self.bad(("C05", "C06") if by_shut else ("C05",),
                         "run of %s started at %s with limit %s and grace %s gets SIGKILL (SIGTERM at %s)" % (
                             x.job, iso(x.start), x.max, x.grace, [iso(t) for t in term]))
            if by_shut and not x.max and gr is None:
                self.bad(("C06",), "SIGKILL without a grace configured")

    def forking(self):
        now = self.sim.now
        self.starts += 1
        cur = self.running_records()
        new = [v for k, v in cur.items() if k not in {x.id for x in self.run}]
        for x in self.run:
            if x.id not in cur:
                self.bad(("C07",), "no running record of run %s in progress" % x.id)
        self.forkrec = None
        pl = plan(self.r, self.g.prof)
        if len(new) != 1:
            self.bad(("C03", "C07"), "%d new running records at the start of a run" % len(new))
            return pl
        f = self.forkrec = new[0]
        n = f["job_name"]
        if self.shut and (self.shut[0][1] or now > self.shut[0][0] + 0.3):
            self.bad(("C06",), "a run of %s is started after a shutdown request" % n)
        if any(d["id"] == f["run_id"] for d in self.done) or f["run_id"] in self.seen_ids:
            self.bad(("C03", "C07"), "run %s is started again" % f["run_id"])
        self.seen_ids.add(f["run_id"])
        if not (abs(f["start_time"] - now) < 0.5 and f["start_time"] <= now + 1e-6):
            self.bad(("C03",), "start time %s of run of %s is not now" % (iso(f["start_time"]), n))
        if f["schedule_time"] > now + 1e-6:
            self.bad(("C03",), "run of %s, due %s, is started early" % (n, iso(f["schedule_time"])))
        if not os.path.isdir(os.path.join(self.var, "runs", n, f["run_id"])):
            self.bad(("C03", "C10"), "run of %s is started without its directory" % n)
        j = self.cfg["_jobs"].get(n)
        if j is None:
            self.bad(("C03", "C04"), "run of the unknown job %s is started" % n)
            self.match = None
            return pl
        if not j.get("concurrent_runs") and any(x.job == n for x in self.run):
            self.bad(("C02",), "run of %s is started while one is in progress" % n)
        try:
            td = json.loads(f["trigger_data"])
        except ValueError:
            td = "?"
        c = [p for p in self.pend if p.job == n and p.kind == f["trigger_type"] and
             p.lo <= f["schedule_time"] <= p.hi and (p.data is None or p.data == td)]
        c.sort(key=lambda p: p.maybe)
        if not c:
            self.bad(("C03", "C04", "C02") if f["trigger_type"] == "schedule" else ("C11", "C02", "C03", "C16"),
                     "started run of %s (%s, due %s, data %r) is not pending; pending: %r" % (
                         n, f["trigger_type"], iso(f["schedule_time"]), td, [p for p in self.pend if p.job == n]))
            self.match = None
            # carry on from what it did
            if f["trigger_type"] == "schedule":
                self.pend = [p for p in self.pend if not (p.job == n and p.respawn)]
                self.recur(n, j, f["start_time"], now)
        else:
            p = self.match = c[0]
            if p.kind == "schedule":
                fr = f["schedule_time"] - math.floor(f["schedule_time"])
                fr0 = self.offsets.setdefault(n, fr)
                if abs((fr - fr0 + 0.5) % 1 - 0.5) > 0.002:
                    self.bad(("C13",), "offset of %s changed from %s to %s" % (n, fr0, fr))
            self.pend.remove(p)
            if p.respawn:
                self.recur(n, j, f["start_time"], now)
        return pl

    def forked(self, proc, rec):
        f = self.forkrec
        if f is None:
            return
        now = self.sim.now
        n = f["job_name"]
        j = self.cfg["_jobs"].get(n)
        if j is None:
            return
        x = Rn()
        x.proc, x.id, x.job, x.start, x.rec = proc, f["run_id"], n, f["start_time"], f
        x.max = j.get("max_execution")
        x.grace = j.get("max_execution_grace", 60.0)
        x.finished = x.told = False
        env = rec.get("env", {})
        gs = j.get("concurrency_groups")
        x.group = env.get("CONCURRENCY_GROUP")
        self.note("start", n, f["run_id"], "pid", proc.pid, "group", x.group, proc.plan)
        if "error" in rec:
            self.bad(("C10", "C03", "C09"), "run of %s does not reach its command: %s" % (n, rec["error"]))
            x.group = None
        elif gs:
            m = self.group_max()
            if x.group not in gs:
                self.bad(("C01", "C09"), "run of %s is started in group %r, not one of %r" % (n, x.group, gs))
            elif self.in_group(x.group) >= m[x.group]:
                self.bad(("C01",), "run of %s is started in group %s with %d of %d in progress" % (
                    n, x.group, self.in_group(x.group), m[x.group]))
        elif x.group is not None and "CONCURRENCY_GROUP" not in self.cfg.get("environment", {}):
            self.bad(("C09", "C01"), "run of %s has group %r" % (n, x.group))
        if "error" not in rec:
            self.check_exec(x, j, rec)
        self.run.append(x)

    def check_exec(self, x, j, rec):
        import shlex
        n, f = x.job, x.rec
        cmd = j["command"]
        cmd = shlex.split(cmd) if isinstance(cmd, str) else list(cmd)
        if j.get("command_append_run"):
            cmd = cmd + [n, x.id]
        if rec["args"] != cmd or rec["file"] != cmd[0]:
            self.bad(("C10",), "run of %s executes %r, not %r" % (n, rec["args"], cmd))
        rd = os.path.join(self.var, "runs", n, x.id)
        td = json.loads(f["trigger_data"])
        e = {}
        try:
            u = pwd.getpwuid(os.getuid())
            e["LOGNAME"], e["HOME"] = u.pw_name, u.pw_dir
        except KeyError:
            pass
        e["PATH"] = os.environ.get("PATH", "/usr/bin:/bin")
        e.update(CI="true", DSARI="true", DATA_DIR=self.var, JOB_NAME=n, RUN_ID=x.id, RUN_DIR=rd,
                 JOB_DIR=os.path.join(self.var, "runs", n), TRIGGER_TYPE=f["trigger_type"],
                 TRIGGER_DIR=os.path.join(self.var, "trigger"))
        times = {"SCHEDULE_TIME": f["schedule_time"], "START_TIME": f["start_time"]}
        if j.get("concurrency_groups"):
            e["CONCURRENCY_GROUP"] = x.group
        own = sorted((d for d in self.done if d["job"] == n), key=lambda d: d["stop"])
        for pre, sel in (("PREVIOUS", own), ("PREVIOUS_GOOD", [d for d in own if d["code"] == 0]),
                         ("PREVIOUS_BAD", [d for d in own if d["code"] != 0])):
            if sel:
                d = sel[-1]
                e[pre + "_RUN_ID"] = d["id"]
                e[pre + "_EXIT_CODE"] = str(d["code"])
                times[pre + "_SCHEDULE_TIME"] = d["schedule"]
                times[pre + "_START_TIME"] = d["start"]
                times[pre + "_STOP_TIME"] = d["stop"]
        if j.get("job_group"):
            e["JOB_GROUP"] = j["job_group"]
        if j.get("jenkins_environment"):
            e.update(BUILD_NUMBER=x.id, BUILD_ID=x.id, BUILD_URL="file://" + rd + "/", NODE_NAME="master",
                     BUILD_TAG="dsari-%s-%s" % (n, x.id), JENKINS_URL="file://" + self.var + "/",
                     EXECUTOR_NUMBER="0", WORKSPACE=rd)
        for src in (self.cfg.get("environment", {}), j.get("environment", {}), td.get("environment", {})):
            for k, v in src.items():
                e[k] = str(v)
                times.pop(k, None)
        want = rd
        if "PWD" in e and os.path.isdir(e["PWD"]):
            want = e["PWD"]
        e["PWD"] = want
        got = dict(rec["env"])
        for k, v in times.items():
            g = got.pop(k, None)
            if g is None:
                self.bad(("C09", "C17") if k.startswith("PREV") else ("C09",), "run of %s lacks %s" % (n, k))
                continue
            try:
                if abs(float(g) - v) > 2e-6:
                    self.bad(("C09", "C17") if k.startswith("PREV") else ("C09",),
                             "run of %s has %s=%s, not %r" % (n, k, g, v))
            except ValueError:
                self.bad(("C09",), "run of %s has %s=%r" % (n, k, g))
        if got != e:
            d = {k: (got.get(k), e.get(k)) for k in set(got) | set(e) if got.get(k) != e.get(k)}
            self.bad(("C09", "C17") if any(k.startswith("PREVIOUS") for k in d) else
                     ("C09", "C10") if "PWD" in d else ("C09",),
                     "environment of run of %s differs (found, expected): %r" % (n, d))
        if not rec["typed"]:
            self.bad(("C09",), "environment of run of %s is not all text" % n)
        if rec["cwd"] != os.path.realpath(want):
            self.bad(("C10",), "run of %s is started in %s, not %s" % (n, rec["cwd"], want))
        if rec["pgid"] != rec["pid"]:
            self.bad(("C10",), "run of %s is not in its own process group" % n)
        for s in (1, 2, 3, 13, 15):
            if rec["sigs"].get(str(s), 0) != 0:
                self.bad(("C10",), "signal %d is not reset to default in run of %s" % (s, n))
        if rec["mask"]:
            self.bad(("C10",), "signals %r are blocked in run of %s" % (rec["mask"], n))
        out = os.path.join(rd, "output.txt")
        fds = rec["fds"]
        for fd, path in (("0", "/dev/null"), ("1", out), ("2", out)):
            if fds.get(fd, [None])[0] != path:
                self.bad(("C10",), "descriptor %s of run of %s is %s" % (fd, n, fds.get(fd)))
            elif fd != "0" and fds[fd][2] & 3 == 0:
                self.bad(("C10",), "descriptor %s of run of %s is not writable" % (fd, n))
            elif not fds[fd][1]:
                self.bad(("C10",), "descriptor %s of run of %s is closed at exec" % (fd, n))
        more = [k for k, v in fds.items() if int(k) > 2 and v[1]]
        if more:
            self.bad(("C10",), "run of %s inherits %r" % (n, {k: fds[k] for k in more}))
        if rec["closed"] is not True:
            self.bad(("C10",), "the database connection is not given up in run of %s" % n)

    def ending(self, proc):
        x = [x for x in self.run if x.proc is proc]
        if not x or "files" not in proc.plan:
            return
        with simmod_io(self.sim):
            for fn, raw in proc.plan["files"].items():
                with open(os.path.join(self.var, "runs", x[0].job, x[0].id, fn), "wb") as f:
                    f.write(raw.encode("latin1", "replace") if "\xff" in raw else raw.encode())

    def reaped(self, proc):
        x = [x for x in self.run if x.proc is proc]
        self.note("reaped", proc.pid, proc.status)
        if x:
            x[0].finished = True

    def completions(self):
        fin = [x for x in self.run if x.finished]
        if not fin:
            return
        now = self.sim.now
        run = self.running_records()
        com = self.completed_records()
        for x in fin:
            self.run.remove(x)
            st = x.proc.status
            code = 128 + (st & 0x7F) if st & 0x7F else st >> 8
            mine = [c for c in com if c["run_id"] == x.id]
            data = {}
            rd = expected_return(x.proc.plan.get("files", {}))
            if rd is not None:
                data = {"return_data": rd[1]}
            rec = {"job": x.job, "id": x.id, "schedule": x.rec["schedule_time"], "start": x.start, "stop": now,
                   "code": code, "type": x.rec["trigger_type"], "seen": now}
            if len(mine) != 1:
                self.bad(("C07",), "%d completed records of ended run %s" % (len(mine), x.id))
                self.done.append(rec)
                continue
            c = mine[0]
            rec["stop"] = c["stop_time"]
            if c["exit_code"] != code:
                self.bad(("C08", "C07"), "run of %s ended with status %d is recorded with exit code %r" % (
                    x.job, st, c["exit_code"]))
            if not (x.proc.reaped - 0.01 <= c["stop_time"] <= now + 0.01):
                self.bad(("C07", "C08"), "run of %s stopped at %s is recorded with %s" % (
                    x.job, iso(x.proc.reaped), iso(c["stop_time"])))
            for k in ("job_name", "schedule_time", "start_time", "trigger_type", "trigger_data"):
                if c[k] != x.rec[k]:
                    self.bad(("C07", "C16"), "%s of run %s is recorded as %r, was %r" % (k, x.id, c[k], x.rec[k]))
            try:
                if json.loads(c["run_data"]) != data:
                    self.bad(("C07",), "run data of %s is %s, not %r" % (x.id, c["run_data"][:200], data))
            except ValueError:
                self.bad(("C07", "C16"), "run data of %s is %r" % (x.id, c["run_data"][:200]))
            if x.id in run:
                self.bad(("C07",), "running record of ended run %s remains" % x.id)
            self.done.append(rec)
        if len(com) != len(self.done):
            self.bad(("C07",), "%d completed records, expected %d" % (len(com), len(self.done)))
        left = {x.id for x in self.run}
        if not left <= set(run) or len(set(run) - left) > (1 if self.kind == "fork" else 0):
            self.bad(("C07",), "running records %r, in progress %r" % (sorted(run), sorted(left)))

    # -------------------------------------------------- running it
    def go(self):
        import dsari.daemon as d
        s = self.sim
        self.last_read = None
        self.seen_ids = set()
        self.kill_cfg = self.cfg
        simmod.CUR = s
        import logging
        root = logging.getLogger()
        for h in list(root.handlers):
            root.removeHandler(h)

        class Args:
            config_dir = self.etc
            debug = self.r.random() < 0.5
            fork = False
        old_err = sys.stderr
        sys.stderr = open(os.devnull, "w")
        random.seed("dsari-%s" % self.g.seed)
        fds = []
        try:
            if self.r.random() < 0.5:
                for n in (250, 900):
                    fd = os.open(os.devnull, os.O_RDONLY)
                    if fd != n:
                        os.dup2(fd, n)
                        os.close(fd)
                    fds.append(n)
                    os.set_inheritable(n, True)
            signal_timer(True)
            t0 = s.now
            sched = d.Scheduler(Args)
            if self.running_records():
                self.bad(("C07",), "running records of an earlier daemon remain: %r" % list(self.running_records()))
            ccf = type(sched.db).child_close_fd

            def closed(*a, **kw):
                r = ccf(sched.db, *a, **kw)
                s.db_closed = True
                return r
            sched.db.child_close_fd = closed
            self.boot = False
            self.reset(t0)
            for p in self.pend:
                w = self.cfg["_jobs"][p.job]["_sched"].next(p.job, s.now + 0.001)
                if w:
                    p.hi = max(p.hi, w[1])
            if s.trace_at:
                sys.settrace(s.trace)
            sched.loop()
            sys.settrace(None)
            s.busy += 1
            if not s.in_child:
                self.ended = s.now
                self.kind = "end"
                self.note("the daemon ends")
                self.completions()
                if self.run:
                    self.bad(("C06",), "the daemon ends with %d runs in progress" % len(self.run))
                if not self.shut:
                    self.bad(("C06", "C03"), "the daemon ends without a request")
        except SimEnd:
            sys.settrace(None)
        except Hang as e:
            sys.settrace(None)
            if s.in_child:
                simmod.REAL["_exit"](3)
            self.bad(tuple("C%02d" % i for i in (1, 2, 3, 4, 5, 6, 7, 8, 11, 18, 22)), "the daemon hangs: %s" % e)
        except BaseException as e:
            sys.settrace(None)
            import traceback
            tb = traceback.format_exc()
            if s.in_child:
                try:
                    s.child_record({"error": "%s: %s" % (type(e).__name__, e), "tb": tb})
                finally:
                    simmod.REAL["_exit"](3)
            last = traceback.extract_tb(e.__traceback__)[-1]
            if isinstance(e, KeyboardInterrupt) or "/harness/" in last.filename and "sim.py" not in last.filename:
                raise
            self.bad(tuple("C%02d" % i for i in (1, 2, 3, 4, 5, 6, 7, 8, 11, 18, 22)),
                     "an error ends the daemon: %s" % tb[-1500:])
        finally:
            sys.settrace(None)
            if s.in_child:
                simmod.REAL["_exit"](3)
            signal_timer(False)
            simmod.CUR = None
            simmod.NS.value = 0
            sys.stderr.close()
            sys.stderr = old_err
            for n in fds:
                os.close(n)
            if self.db is not None:
                self.db.close()
            for h in list(root.handlers):
                root.removeHandler(h)
            os.chdir("/")
        return self.found


def signal_timer(on):
    signal.setitimer(signal.ITIMER_VIRTUAL, 6 if on else 0, 6 if on else 0)


class simmod_io:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        self.s.busy += 1

    def __exit__(self, *a):
        self.s.busy -= 1


PROFILES = {
    "C01": {"ngroups": [1, 2, 3], "grouped": 0.95, "njobs": [2, 3, 4], "concurrent": 0.5, "triggers": [5, 15],
            "hups": [0, 1, 2]},
    "C02": {"triggers": [8, 20], "bad_trigger": 0.05, "concurrent": 0.25, "hups": [0, 1, 2]},
    "C03": {"triggers": [2, 6]},
    "C04": {"triggers": [3, 10], "hups": [0, 1, 2], "bad_trigger": 0.1},
    "C05": {"limited": 0.95, "ignore_term": True, "hups": [0, 1, 2], "shutdown": 0.4, "triggers": [2, 6]},
    "C06": {"shutdown": 1, "ignore_term": True, "limited": 0.5, "horizon": 250, "kill_runs": 0.7},
    "C07": {"return_data": 0.7, "foreign": [0, 1, 3]},
    "C08": {"return_data": 0.0, "limited": 0.3, "triggers": [2, 6]},
    "C09": {"return_data": 0.05, "triggers": [5, 15], "bad_trigger": 0.02, "horizon": 300},
    "C10": {"return_data": 0.05, "triggers": [5, 15], "bad_trigger": 0.02, "horizon": 300},
    "C11": {"triggers": [15, 30], "bad_trigger": 0.6},
    "C18": {"limited": 0.4, "triggers": [2, 6]},
    "C22": {"midline": 0.8, "hups": [1, 3, 5], "bad_reload": 0.5, "horizon": 200},
}


def scenario(seed, prop, scratch):
    prof = PROFILES.get(prop, {})
    g = Gen("%s-%s" % (prop, seed), prof)
    d = os.path.join(scratch, "s")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        o = Oracle(g, d)
        o.prepare()
        o.go()
        return o
    finally:
        shutil.rmtree(d, ignore_errors=True)
