"""Concrete cases of the parts other than the daemon's loop.

Each case generates its input from its random generator only, runs the real
code of the repository and compares what it did with what the property says.
"""
import copy
import datetime
import gzip
import io
import json
import lzma
import math
import os
import re
import shutil
import subprocess
import sys
import types
import uuid
from html import escape as _escape

import sim

UTC = datetime.timezone.utc
NAMECH = "- ABCXYZabcxyz0189_+.:@"


class Case:
    def __init__(self, r, scratch):
        self.r, self.dir = r, os.path.join(scratch, "p")
        self.bad, self.stats, self.what = [], {}, None
        self.nontrivial = True

    def fail(self, msg):
        self.bad.append(str(msg)[:2000])

    def check(self, ok, *msg):
        self.stats["checks"] = self.stats.get("checks", 0) + 1
        if not ok:
            self.fail(" ".join(str(m) for m in msg))
        return ok

    def scratch(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        return self.dir


def clock(t):
    sim.NS.value = int(t * 1e9)
    sim.STEP.value = 0


def job_name(r):
    n = r.choice([1, 2, 3, 5, 8, 13, 30, 64])
    while True:
        s = "".join(r.choice(NAMECH) for _ in range(n))
        if s not in (".", ".."):
            return s


# ---------------------------------------------------------------- cron hashing
RANGES = ((0, 59), (0, 23), (1, 31), (1, 12), (0, 6), (0, 59))


def expanded(expr, name, start=1767225600):
    """What each field stands for: a sorted list of values."""
    import croniter
    from dsari import croniter_hash
    try:
        c = croniter_hash.croniter_hash(expr, start_time=start, hash_id=name)
    except croniter.CroniterError as e:
        return [[-1, "%s: %s" % (type(e).__name__, e)]] * 6
    return field_values(c)


def field_values(c):
    out = []
    for i, f in enumerate(c.expanded):
        if list(f) == ["*"]:
            out.append(list(range(RANGES[i][0], RANGES[i][1] + 1)) if i < 6 else ["*"])
        else:
            out.append(list(f))
    return out


PLAIN = [
    ["*", "0", "59", "*/5", "1,2,30-35", "7-50/4", "*/7"],
    ["*", "0", "23", "*/3", "1,2,20-22", "2-20/5"],
    ["*", "1", "31", "*/2", "1,15", "3-20/6", "L"],
    ["*", "1", "12", "*/3", "jan", "feb,jun", "2-9/2", "DEC"],
    ["*", "0", "6", "mon-fri", "SUN", "1,3", "*/2"],
    ["*", "0", "59", "*/10", "5,6"],
]


def hash_item(r, p):
    """An item, and the range and step it stands for."""
    lo, hi = RANGES[p]
    k = r.choice("HR") if r.random() < .3 else "H"
    v = r.random()
    if v < .3:
        return k, lo, hi, None
    if v < .5:
        s = r.randint(1, hi - lo)
        return "%s/%d" % (k, s), lo, hi, s
    a = r.randint(lo, hi)
    b = r.randint(a, hi) if r.random() < .8 else a
    if lo and r.random() < .2:
        # below the field's first value: clamped to it
        b = r.randint(1, hi)
        return "%s(0-%d)" % (k, b), 1, b, None
    if v < .75 or a == b:
        return "%s(%d-%d)" % (k, a, b), a, b, None
    s = r.randint(1, b - a) if r.random() < .7 else r.randint(1, hi - lo)
    return "%s(%d-%d)/%d" % (k, a, b, s), a, b, s


def cron_hash(c):
    r = c.r
    name = r.choice([job_name(r), r.choice("ab") + str(r.randint(0, 99999)), "h\u00e9-%d" % r.randint(0, 99)])
    c.what = []
    for _ in range(12):
        items, spec = [], {}
        for p in range(6):
            if r.random() < .5:
                it, a, b, s = hash_item(r, p)
                spec[p] = (it, a, b, s)
                items.append(it)
            else:
                items.append(r.choice(PLAIN[p]))
        expr = " ".join(items)
        c.what.append([name, expr])
        got = expanded(expr, name)
        plain = expanded(" ".join("*" if p in spec else items[p] for p in range(6)), None)
        for p in range(6):
            if p not in spec:
                c.check(got[p] == plain[p], "field", p, "of", expr, "is", got[p], "not", plain[p])
                continue
            it, a, b, s = spec[p]
            v = got[p]
            if s is None:
                c.check(len(v) == 1 and a <= v[0] <= b, it, "at", p, "for", name, "gives", v)
            else:
                first = v[0] if v else None
                c.check(first is not None and a <= first <= min(a + s - 1, b) and v == list(range(first, b + 1, s)),
                        it, "at", p, "for", name, "gives", v)
            if it[0] == "H":
                # elsewhere in another expression, at another time
                other = ["*"] * 6
                other[p] = it
                if r.random() < .5:
                    other[(p + 1) % 6] = "H"
                again = expanded(" ".join(other), name, r.randint(1, 4 * 10 ** 9))
                c.check(again[p] == v, it, "at", p, "for", name, "gives", v, "but in", other, again[p])


ALIASES = {"@midnight": "H H(0-2) * * * H", "@hourly": "H * * * * H", "@daily": "H H * * * H",
           "@weekly": "H H * * H H", "@monthly": "H H H * * H", "@yearly": "H H H H * H", "@annually": "H H H H * H"}


def cron_alias(c):
    r = c.r
    name = job_name(r)
    c.what = name
    from dsari import utils
    for a, e in ALIASES.items():
        c.check(expanded(a, name) == expanded(e, name), a, "for", name)
        t = datetime.datetime.fromtimestamp(r.randint(10 ** 9, 2 * 10 ** 9), UTC)
        c.check(utils.get_next_schedule_time(a, name, t) == utils.get_next_schedule_time(e, name, t), a, name, t)


def cron_random(c):
    """R reaches both ends of its range, whatever the name."""
    r = c.r
    name = job_name(r)
    p = r.randrange(6)
    kind = r.choice(["R", "R()", "R/", "R()/"])
    lo, hi = RANGES[p]
    a = r.randint(lo, hi - 1)
    b = r.randint(a + 1, min(hi, a + 12))
    s = r.randint(2, 8)
    it, a, b, w = {"R": ("R", lo, hi, (lo, hi)), "R()": ("R(%d-%d)" % (a, b), a, b, (a, b)),
                   "R/": ("R/%d" % min(s, hi - lo), lo, hi, (lo, lo + min(s, hi - lo) - 1)),
                   "R()/": ("R(%d-%d)/%d" % (a, b, s), a, b, (a, min(a + s - 1, b)))}[kind]
    c.what = [name, it, p]
    items = ["*"] * 6
    items[p] = it
    expr = " ".join(items)
    seen = set()
    for _ in range((w[1] - w[0] + 1) * 30):
        seen.add(expanded(expr, name)[p][0])
    want = set(range(w[0], w[1] + 1))
    c.check(seen <= want, it, "at", p, "gave", sorted(seen - want))
    # all but certain: each is missed with probability e^-30
    c.check(want <= seen, it, "at", p, "never gave", sorted(want - seen))


OTHER = r"""
import datetime, json, sys
sys.path.insert(0, sys.argv[1]); sys.dont_write_bytecode = True
from dsari import utils
out = []
for s, n, t, z in json.load(sys.stdin):
    try:
        x = utils.get_next_schedule_time(s, n, datetime.datetime.fromtimestamp(t, datetime.timezone(datetime.timedelta(seconds=z))))
        out.append(None if x is None else x.timestamp())
    except Exception as e:
        out.append(type(e).__name__)
json.dump(out, sys.stdout)
"""


def other_process(c):
    """The same results in another process, with other hash seeds and another day."""
    from dsari import utils
    r = c.r
    q = []
    for _ in range(60):
        s = cron_expr(r) if r.random() < .7 else rrule_expr(r)[0]
        q.append([s, job_name(r), r.randint(10 ** 9, 2 * 10 ** 9) + r.choice([0, .5, .25]), r.choice([0, 19800, -28800])])
    c.what = q[:3]
    env = {"PATH": os.environ["PATH"], "PYTHONHASHSEED": str(r.randint(1, 10 ** 6)), "TZ": "UTC",
           "DSARI_HOME": os.environ["DSARI_HOME"], "HOME": os.environ["HOME"]}
    repo = next(p for p in sys.path if os.path.exists(os.path.join(p, "dsari", "daemon.py")))
    p = subprocess.run([sys.executable, "-c", OTHER, repo], input=json.dumps(q), capture_output=True, text=True,
                       env=env)
    there = json.loads(p.stdout)
    for (s, n, t, z), o in zip(q, there):
        try:
            x = utils.get_next_schedule_time(s, n, datetime.datetime.fromtimestamp(
                t, datetime.timezone(datetime.timedelta(seconds=z))))
            x = None if x is None else x.timestamp()
        except Exception as e:
            x = type(e).__name__
        c.check(x == o, "next time of", s, "for", n, "after", t, "is", x, "here but", o, "in another process")


# ---------------------------------------------------------------- next times
def cron_expr(r, h=True):
    items = []
    for p in range(r.choice([5, 5, 6])):
        v = r.random()
        if h and v < .35:
            it = hash_item(r, p)[0].replace("R", "H")
            items.append(it)
        elif v < .75:
            items.append("*")
        else:
            items.append(r.choice([x for x in PLAIN[p] if x != "L"]))
    return " ".join(items)


def brute_next(vals, restricted, start):
    """The first matching whole second strictly after start (any fixed offset)."""
    mi, ho, dom, mo, dow, se = [sorted(set(v)) for v in vals]
    dow = {d % 7 for d in dow}
    t = start.replace(microsecond=0) + datetime.timedelta(seconds=1)
    d = t.date()
    for i in range(366 * 9):
        day = d + datetime.timedelta(days=i)
        okm = day.month in mo
        in_dom, in_dow = day.day in dom, (day.weekday() + 1) % 7 in dow
        okd = (in_dom or in_dow) if restricted[2] and restricted[4] else (in_dom and in_dow)
        if not (okm and okd):
            continue
        for h in ho:
            if i == 0 and h < t.hour:
                continue
            for m in mi:
                if i == 0 and (h, m) < (t.hour, t.minute):
                    continue
                for s in se:
                    if i == 0 and (h, m, s) < (t.hour, t.minute, t.second):
                        continue
                    return datetime.datetime(day.year, day.month, day.day, h, m, s, tzinfo=start.tzinfo)
    return None


def offset_of(name):
    from dsari import utils
    t = datetime.datetime(2026, 1, 1, tzinfo=UTC)
    x = utils.get_next_schedule_time("* * * * * *", name, t)
    return x - t - datetime.timedelta(seconds=1)


def start_time(r, tz):
    t = r.choice([r.randint(10 ** 9, 2 * 10 ** 9), 86400 * r.randint(12000, 22000) - 1, 60 * r.randint(10 ** 7, 3 * 10 ** 7)])
    us = r.choice([0, 0, 1, 999999, r.randint(0, 999999)])
    return (datetime.datetime.fromtimestamp(t, UTC) + datetime.timedelta(microseconds=us)).astimezone(tz)


def fixed_zone(r):
    return r.choice([UTC, datetime.timezone(datetime.timedelta(hours=5, minutes=30)),
                     datetime.timezone(datetime.timedelta(hours=-8)), datetime.timezone(datetime.timedelta(hours=13))])


def next_cron(c):
    import croniter
    import dateutil.tz
    from dsari import utils
    r = c.r
    name = job_name(r)
    off = offset_of(name)
    c.what = []
    c.check(datetime.timedelta(0) <= off <= datetime.timedelta(seconds=1), "offset of", name, "is", off)
    for _ in range(8):
        expr = cron_expr(r)
        named = r.random() < .3
        tz = dateutil.tz.gettz(r.choice(["America/New_York", "Europe/Berlin", "Asia/Kolkata"])) if named \
            else fixed_zone(r)
        start = start_time(r, tz)
        c.what.append([name, expr, start.isoformat()])
        full = expr if len(expr.split()) == 6 else expr + " H"
        vals = expanded(full, name)
        got = utils.get_next_schedule_time(expr, name, start)
        if len(expr.split()) == 5:
            c.check(got == utils.get_next_schedule_time(full, name, start), "no hashed seconds in", expr, name, start)
        star = [it[0] == "*" for it in full.split(" ")]
        if not named and (star[2] or star[4]) and all(x == "*" or "*" not in x for x in full.split(" ")):
            want = brute_next(vals, [not s for s in star], start)
        else:
            text = " ".join(",".join(map(str, vals[i])) if x[0] == "H" else x for i, x in enumerate(full.split(" ")))
            try:
                want = croniter.croniter(text, start_time=start).get_next(datetime.datetime)
            except croniter.CroniterBadDateError:
                want = None
        if want is None:
            if got is not None:
                c.check(got > start, "next time of", expr, "after", start, "is", got)
            continue
        c.check(got is not None and got == want + off, "next time of", expr, "for", name, "after", start, "is", got,
                "not", want, "+", off)
        c.check(got is not None and got > start, "next time of", expr, "for", name, "after", start, "is", got)
        c.check(got == utils.get_next_schedule_time(expr, name, start), "not the same again", expr, name, start)
        if got is not None and not named and want - start > datetime.timedelta(microseconds=1):
            # nothing is skipped when asked again before it
            s2 = start + (want - start) * r.random()
            if s2 < want:
                c.check(utils.get_next_schedule_time(expr, name, s2) == got, "skipped", got, "of", expr, name, "at", s2)


def rrule_expr(r):
    f = r.choice(["SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY"])
    parts = ["FREQ=" + f]
    if r.random() < .3:
        parts.append("INTERVAL=%d" % r.randint(1, 3))
    if f in ("DAILY", "WEEKLY", "MONTHLY") and r.random() < .4:
        parts.append("BYHOUR=%d" % r.randint(0, 23))
        if r.random() < .5:
            parts.append("BYMINUTE=%d" % r.randint(0, 59))
    if f in ("DAILY", "WEEKLY", "HOURLY") and r.random() < .4:
        parts.append("BYDAY=" + r.choice(["MO", "MO,TH", "SA,SU"]))
    if f == "MONTHLY" and r.random() < .4:
        parts.append(r.choice(["BYMONTHDAY=1", "BYDAY=MO,TU,WE,TH,FR;BYSETPOS=-1", "BYMONTHDAY=-1"]))
    return r.choice(["RRULE:", "RRULE:", "rrule:"]) + ";".join(parts), f


def next_rrule(c):
    import dateutil.rrule
    from dsari import utils
    r = c.r
    name = job_name(r)
    off = offset_of(name)
    c.what = []

    def daily(t, tz):
        return utils.get_next_schedule_time("RRULE:FREQ=DAILY", name, t.astimezone(tz)) - off
    anchor = daily(datetime.datetime(2026, 1, 1, tzinfo=UTC), UTC).timestamp() % 86400
    for _ in range(6):
        expr, f = rrule_expr(r)
        tz = fixed_zone(r)
        start = start_time(r, tz)
        c.what.append([name, expr, start.isoformat()])
        d = daily(start, tz)
        c.check(d.timestamp() % 86400 == anchor and start < d <= start + datetime.timedelta(days=1),
                "anchor of", name, "is", anchor, "but the next day after", start, "is", d)
        # at or before the start, less than a day earlier
        a = start - datetime.timedelta(microseconds=round(((start.timestamp() - anchor) % 86400) * 1e6))
        want = dateutil.rrule.rrulestr(expr.upper(), dtstart=a).after(start)
        got = utils.get_next_schedule_time(expr, name, start)
        c.check((got is None) == (want is None) and (got is None or abs(got - want - off) < datetime.timedelta(
            microseconds=2000)), "next time of", expr, "for", name, "after", start, "is", got, "not", want, "+", off)
        if got is None:
            continue
        c.check(got > start, "next time of", expr, "for", name, "after", start, "is", got)
        c.check(utils.get_next_schedule_time(expr, name, start) == got, "not the same again", expr, name, start)
        # an end time: local, absolute or a date
        if "INTERVAL" in expr:
            continue
        base = got - off
        for k in (-1, 0, 1):
            u = (base + datetime.timedelta(days=r.choice([0, 0, 1, 30])) * k).replace(microsecond=0) + \
                datetime.timedelta(seconds=k)
            if u.replace(tzinfo=UTC) < start.astimezone(UTC) - datetime.timedelta(days=300):
                continue
            form = r.choice(["local", "z", "date"])
            if form == "local":
                ends, text = u, u.strftime("%Y%m%dT%H%M%S")
            elif form == "z":
                ends, text = u, u.astimezone(UTC).strftime("%Y%m%dT%H%M%SZ")
            else:
                ends = u.replace(hour=0, minute=0, second=0)
                text = u.strftime("%Y%m%d")
            e2 = expr + ";UNTIL=" + text
            g2 = utils.get_next_schedule_time(e2, name, start)
            if abs(ends - base) < datetime.timedelta(seconds=1):
                continue
            c.check((g2 is not None and g2 == got) if base < ends else g2 is None, "next time of", e2, "for", name,
                    "after", start, "is", g2, "without the end", got)


# ---------------------------------------------------------------- configuration
OPTS_BASE = {"data_dir": str, "template_dir": str, "report_html_gz": bool, "report_run_output_start": int,
             "report_run_output_end": int, "shutdown_kill_runs": bool, "shutdown_kill_grace": "num",
             "environment": "env", "database": dict}
OPTS_JOB = {"schedule": "sched", "schedule_timezone": "tz", "max_execution": "num", "max_execution_grace": "num",
            "environment": "env", "render_reports": bool, "command_append_run": bool, "jenkins_environment": bool,
            "job_group": str, "concurrent_runs": bool}
DEF_JOB = {"schedule": None, "max_execution": None, "max_execution_grace": 60.0, "environment": {},
           "render_reports": True, "command_append_run": False, "jenkins_environment": False, "job_group": None,
           "concurrent_runs": False}
WORDS = [("a b", ["a", "b"]), ("/bin/x -y 'q r'", ["/bin/x", "-y", "q r"]), ("x \"a b\"c\\ d", ["x", "a bc d"]),
         ("  lots   of  ", ["lots", "of"]), ("e ''", ["e", ""]), ("x # y", ["x", "#", "y"]), ("a\tb\nc", ["a", "b", "c"])]
SCHEDS = ["H H * * *", "*/5 * * * *", "@daily", "RRULE:FREQ=DAILY", "rrule:freq=hourly", "H/15 * * * * 7", None,
          "H(3-9)/2 1-5 * * mon", "@hourly"]
BAD_SCHEDS = ["", "x", "61 * * * *", "* * *", "RRULE:FREQ=NEVER", "RRULE:", "H(60-100) * * * *", "@sometimes", "H,5 * * * *"]


def value(r, k):
    """A good value of an option and what it is taken over as."""
    if k is str:
        v = r.choice(["", "x", "/some/dir", "g\u00fc"])
        return v, v
    if k is bool:
        v = r.random() < .5
        return v, v
    if k is int:
        v = r.choice([0, 1, 17, -3, 10 ** 6])
        return v, v
    if k is dict:
        v = {"type": "sqlite3", "file": r.choice([None, "/x/y.db"])}
        return v, v
    if k == "num":
        v = r.choice([0, 1, 2.5, 300, 0.25, 86400, 1e-6])
        return v, ("seconds", v)
    if k == "env":
        v, w = {}, {}
        for _ in range(r.randint(0, 3)):
            n = r.choice(["A", "b_1", "PATH", "X Y"])
            v[n] = r.choice(["", "text", 5, 2.5, -1, "\u00e9"])
            w[n] = v[n] if isinstance(v[n], str) else str(v[n])
        return v, w
    if k == "sched":
        v = r.choice(SCHEDS)
        return v, v
    if k == "tz":
        v = r.choice(["UTC", "America/New_York", "Asia/Kolkata"])
        return v, ("zone", v)


def bad_value(r, k):
    wrong = {str: [5, None, [], {}, True, 1.5], bool: [0, 1, "true", None, []], int: ["5", 1.5, None, True, []],
             dict: [5, "x", None, []], "num": ["5", None, True, [], {}], "env": [[], "x", 5, None, {"A": None},
                                                                               {"A": [1]}, {"A": True}, {"A": {}}],
             "sched": BAD_SCHEDS + [5, True, [], {}], "tz": ["Nowhere/City", 5, None, True]}[k]
    return r.choice(wrong)


BAD_NAMES = ["", ".", "..", "a/b", "x" * 65, "a\n", "h\u00e9", "a$b", "a\0b", "/", "a,b", "a\tb", "a(b", "\n"]


def make_config(r, bad):
    """A configuration, what it should be taken over as, and whether it is bad."""
    cfg, want = {}, {"jobs": {}, "groups": {}, "base": {}}
    spots = []      # places where something can be broken
    for o, k in OPTS_BASE.items():
        if r.random() < .3:
            cfg[o], want["base"][o] = value(r, k)
        spots.append(lambda o=o, k=k: cfg.__setitem__(o, bad_value(r, k)))
    if r.random() < .3:
        cfg["unknown_option"] = r.choice([1, None, {"a": []}])
    names = []
    while len(names) < 8:
        n = job_name(r)
        if n not in names:
            names.append(n)
    groups = ["g%d" % i for i in range(3)] + [job_name(r)]
    if r.random() < .7:
        cfg["concurrency_groups"] = {}
        for g in groups[:r.randint(0, 3)]:
            m = r.choice([None, 1, 2, 7])
            d = {} if m is None else {"max": m}
            if r.random() < .2:
                d["other"] = 5
            cfg["concurrency_groups"][g] = d
            want["groups"][g] = m or 1
            spots.append(lambda d=d: d.__setitem__("max", bad_value(r, int)))
        spots.append(lambda: cfg["concurrency_groups"].__setitem__(r.choice(BAD_NAMES), {}))
        spots.append(lambda: cfg["concurrency_groups"].__setitem__("zz", r.choice([None, [], 5, "x"])))
        spots.append(lambda: cfg.__setitem__("concurrency_groups", r.choice([[], 5, "x", None])))

    def options(grouped=False):
        d, w = {}, dict(DEF_JOB)
        w["zone"] = None
        if r.random() < .5:
            d["command"], w["command"] = copy.deepcopy(r.choice(WORDS))
        else:
            d["command"] = [r.choice(["/bin/true", "", "a b", "--x=\u00e9", "$HOME"]) for _ in range(r.randint(1, 3))]
            w["command"] = list(d["command"])
        for o, k in OPTS_JOB.items():
            if r.random() < .25:
                d[o], x = value(r, k)
                if o == "schedule_timezone":
                    w["zone"] = x[1]
                else:
                    w[o] = x
            if not (grouped and o == "job_group"):      # the group itself is what counts
                spots.append(lambda o=o, k=k: d.__setitem__(o, bad_value(r, k)))
        w["groups"] = []
        if r.random() < .5:
            d["concurrency_groups"] = [r.choice(groups) for _ in range(r.randint(0, 2))]
            d["concurrency_groups"] = sorted(set(d["concurrency_groups"]))
            w["groups"] = list(d["concurrency_groups"])
            spots.append(lambda: d["concurrency_groups"].append(r.choice(BAD_NAMES + [5, None, []])))
            spots.append(lambda: d.__setitem__("concurrency_groups", r.choice(["g1", 5, None, {"g1": 1}])))
        if r.random() < .2:
            d["unknown"] = {"x": 1}
        spots.append(lambda: d.pop("command"))
        spots.append(lambda: d.__setitem__("command", r.choice([5, None, {}, True, ["a", 5], ["a", None], [["a"]],
                                                                'open "quote', [True]])))
        return d, w
    if r.random() < .9:
        cfg["jobs"] = {}
        for n in names[:r.randint(0, 3)]:
            cfg["jobs"][n], want["jobs"][n] = options()
        spots.append(lambda: cfg["jobs"].__setitem__(r.choice(BAD_NAMES), {"command": ["x"]}))
        spots.append(lambda: cfg["jobs"].__setitem__("zz", r.choice([None, [], 5, "x"])))
        spots.append(lambda: cfg.__setitem__("jobs", r.choice([[], 5, "x", None])))
    if r.random() < .4:
        cfg["job_groups"] = {}
        for i in range(r.randint(0, 2)):
            gn = "jg%d" % i
            d, w = options(True)
            d["job_names"] = names[3 + 2 * i:][:r.randint(0, 2)]
            if i == 0 and r.random() < .3:
                d["job_names"] = d["job_names"] + names[:1]     # replaces a job of the same name
            cfg["job_groups"][gn] = d
            for n in d["job_names"]:
                want["jobs"][n] = dict(copy.deepcopy(w), job_group=gn)
            spots.append(lambda d=d: d["job_names"].append(r.choice(BAD_NAMES + [5, None, []])))
            spots.append(lambda d=d: d.__setitem__("job_names", r.choice(["abc", 5, None, {"a": 1}])))
            spots.append(lambda d=d: d.pop("job_names"))
        spots.append(lambda: cfg["job_groups"].__setitem__(
            r.choice(BAD_NAMES), {"command": ["x"], "job_names": ["ok"]}))
        spots.append(lambda: cfg["job_groups"].__setitem__("zz", r.choice([None, [], 5, "x"])))
        spots.append(lambda: cfg.__setitem__("job_groups", r.choice([[], 5, "x", None])))
    for j in want["jobs"].values():
        for g in j["groups"]:
            want["groups"].setdefault(g, 1)
    if bad:
        cfg = json.loads(json.dumps(cfg)) if False else cfg
        r.choice(spots)()
    return cfg, want


def job_level_bad_is_hidden(cfg):
    """Broken options of a job group without names are never looked at."""
    return any(isinstance(g, dict) and g.get("job_names") == [] for g in (cfg.get("job_groups") or {}).values()) \
        if isinstance(cfg.get("job_groups"), dict) else False


def overridden(cfg):
    """A job replaced by a group's job of the same name is never looked at."""
    js, gs = cfg.get("jobs"), cfg.get("job_groups")
    if not (isinstance(js, dict) and isinstance(gs, dict)):
        return False
    return any(isinstance(g, dict) and isinstance(g.get("job_names"), list) and any(
        isinstance(n, str) and n in js for n in g["job_names"]) for g in gs.values())


def config_load(c):
    import dateutil.tz
    from dsari import config
    r = c.r
    clock(r.randint(1767225600, 1893456000))
    try:
        bad = r.random() < .6
        cfg, want = make_config(r, bad)
        c.what = cfg
        d = c.scratch()
        kind = r.choice(["json", "yaml"])
        with open(os.path.join(d, "dsari." + kind), "w") as f:
            if kind == "json":
                json.dump(cfg, f)
            else:
                import yaml
                yaml.safe_dump(cfg, f)
        try:
            got = config.get_config(d)
        except config.ConfigError as e:
            c.check(bad, "a good configuration is refused:", e)
            return
        except Exception as e:
            c.check(False, "not a configuration error:", repr(e))
            return
        if bad:
            if job_level_bad_is_hidden(cfg) or overridden(cfg):
                return
            c.check(False, "a bad configuration is accepted")
            return
        compare_config(c, got, want, cfg)
    finally:
        sim.NS.value = 0


def compare_config(c, got, want, cfg):
    import dateutil.tz
    from dsari import config
    fresh = config.Config()
    for o in OPTS_BASE:
        v = getattr(got, o)
        if o in want["base"]:
            w = want["base"][o]
            if isinstance(w, tuple):
                w = datetime.timedelta(seconds=w[1])
        else:
            w = getattr(fresh, o)
        c.check(type(v) == type(w) and v == w, "option", o, "is", repr(v), "not", repr(w))
    c.check(set(got.jobs) == set(want["jobs"]), "jobs are", sorted(got.jobs), "not", sorted(want["jobs"]))
    c.check({k: g.max for k, g in got.concurrency_groups.items()} == want["groups"], "concurrency groups are",
            got.concurrency_groups, "not", want["groups"])
    for k, g in got.concurrency_groups.items():
        c.check(g.name == k, "concurrency group", k, "is named", g.name)
    for n, j in got.jobs.items():
        if n not in want["jobs"]:
            continue
        w = want["jobs"][n]
        c.check(j.name == n, "job", n, "is named", j.name)
        for o in ("command",) + tuple(OPTS_JOB):
            v = getattr(j, o)
            if o == "schedule_timezone":
                if w["zone"]:
                    c.check(v == dateutil.tz.gettz(w["zone"]), "timezone of", n, "is", v, "not", w["zone"])
                else:
                    c.check(v is None or v.utcoffset(datetime.datetime(2026, 1, 1)) == datetime.timedelta(0),
                            "timezone of", n, "is", v)
                continue
            x = w[o]
            if o.startswith("max_execution") and x is not None:
                x = datetime.timedelta(seconds=x[1] if isinstance(x, tuple) else x)
            c.check(type(v) == type(x) and v == x, "option", o, "of", n, "is", repr(v), "not", repr(x))
        c.check([g.name for g in j.concurrency_groups] == w["groups"], "groups of", n, "are", j.concurrency_groups)
        for g in j.concurrency_groups:
            c.check(got.concurrency_groups.get(g.name) is g, "group", g.name, "of", n, "is not the configured one")
    # nothing mutable is shared between jobs
    js = list(got.jobs.values())
    for i, a in enumerate(js):
        for b in js[i + 1:]:
            for o in ("command", "environment", "concurrency_groups"):
                c.check(getattr(a, o) is not getattr(b, o), o, "is shared by", a, b)


def names_ok(c):
    """Names, one at a time."""
    from dsari import config
    r = c.r
    ok = re.compile(r"[- A-Za-z0-9_+.:@]{1,64}")
    where = r.choice(["jobs", "job_groups", "concurrency_groups", "member", "listed"])
    pool = NAMECH + "\n\t\0/\\$%,;()[]{}'\"\u00e9\u0660\u2028~`!?*&^=<>|#"
    c.what = []
    for _ in range(10):
        n = "".join(r.choice(pool if r.random() < .1 else NAMECH) for _ in range(r.choice([0, 1, 2, 3, 10, 63, 64, 65])))
        n = r.choice([n, n, n, n + "\n", ".", "..", "..."])
        c.what.append([where, n])
        j = {"command": ["x"]}
        cfg = {"jobs": {"jobs": {n: j}}, "job_groups": {"job_groups": {n: dict(j, job_names=["a"])}},
               "listed": {"job_groups": {"g": dict(j, job_names=[n])}},
               "concurrency_groups": {"concurrency_groups": {n: {}}},
               "member": {"jobs": {"a": dict(j, concurrency_groups=[n])}}}[where]
        d = c.scratch()
        with open(os.path.join(d, "dsari.json"), "w") as f:
            json.dump(cfg, f)
        good = bool(ok.fullmatch(n)) and n not in (".", "..")
        try:
            config.get_config(d)
            c.check(good, where, "name", repr(n), "is accepted")
        except config.ConfigError as e:
            c.check(not good, where, "name", repr(n), "is refused:", e)
        except Exception as e:
            c.check(False, where, "name", repr(n), "fails with", repr(e))


# ---------------------------------------------------------------- merging
def tree(r, depth=3, top=True):
    v = r.random()
    if depth and (top or v < .45):
        return {r.choice("abcdef"): tree(r, depth - 1, False) for _ in range(r.randint(0, 4))}
    if v < .65:
        return [tree(r, max(0, depth - 1), False) for _ in range(r.randint(0, 2))]
    return r.choice([0, 1, "s", None, True, 2.5, "t", {}, []])


def merged(a, b):
    """b over a"""
    if isinstance(a, dict) and isinstance(b, dict):
        out = dict(a)
        for k, v in b.items():
            out[k] = merged(a[k], v) if k in a else v
        return out
    return b


def mutables(x):
    out = []
    if isinstance(x, dict):
        out.append(x)
        for v in x.values():
            out += mutables(v)
    elif isinstance(x, list):
        out.append(x)
        for v in x:
            out += mutables(v)
    return out


def merge_dicts(c):
    from dsari import utils
    r = c.r
    c.what = []
    for _ in range(20):
        a, b = tree(r), tree(r)
        if r.random() < .3:
            b = merged(b, copy.deepcopy(a))
        a0, b0 = copy.deepcopy(a), copy.deepcopy(b)
        c.what.append([a0, b0])
        got = utils.dict_merge(a, b)
        c.check(same(got, merged(a0, b0)), "merging", b0, "over", a0, "gives", got)
        c.check(same(a, a0), "merging changed", a0, "to", a)
        c.check(same(b, b0), "merging changed", b0, "to", b)
        ids = {id(x) for x in mutables(a) + mutables(b)}
        c.check(not any(id(x) in ids for x in mutables(got)), "the merge of", a0, "and", b0, "shares a part with them")


def same(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def merge_files(c):
    import yaml
    from dsari import config
    r = c.r
    d = c.scratch()
    want = {}
    log = []
    mode = r.choice(["default", "default", "other", "missing", "none", "yaml-other"])
    cd = os.path.join(d, "config.d") if mode in ("default", "none") else os.path.join(d, "elsewhere")

    def content(f, kind):
        v = r.random()
        if v < .12:
            with open(f, "w") as o:
                o.write("" if kind == "yaml" else "{}")
            return {}
        if v < .2 and kind == "yaml":
            with open(f, "w") as o:
                o.write(r.choice(["# nothing\n", "---\n", "null\n"]))
            return {}
        t = {"extra": tree(r, 3)} if r.random() < .8 else {}
        if r.random() < .6:
            t["x_" + r.choice("ab")] = tree(r, 2, False)
        if r.random() < .4:
            t["environment"] = {r.choice("AB"): r.choice(["1", "2"])}
        with open(f, "w") as o:
            (json.dump if kind == "json" else yaml.safe_dump)(t, o)
        return t
    main = {}
    for k in ("yaml", "json"):
        if r.random() < .7:
            f = os.path.join(d, "dsari." + k)
            t = content(f, k)
            if mode in ("other", "missing", "none") and k == "json" or mode == "yaml-other" and k == "yaml":
                t = dict(t, config_d=cd if mode != "none" else None)
                with open(f, "w") as o:
                    (json.dump if k == "json" else yaml.safe_dump)(t, o)
            main = merged(main, t)
            log.append([f, t])
    want = main
    # files not looked at
    decoy = os.path.join(d, "config.d")
    os.makedirs(cd, exist_ok=True)
    os.makedirs(decoy, exist_ok=True)
    if mode == "missing":
        os.rmdir(cd)
    used = main.get("config_d", decoy)
    files = []
    for base in {cd, decoy}:
        if not os.path.isdir(base):
            continue
        for _ in range(r.randint(0, 6)):
            n = r.choice(["10-a", "9-b", "B", "a", "aa", "z", "10", ".h", "a.json", "a.yaml", "\u00e9"])
            k = r.choice(["yaml", "json", "json", "yml", "txt", "json~"])
            f = os.path.join(base, n + "." + k)
            if os.path.exists(f):
                continue
            if k in ("yaml", "json"):
                if r.random() < .1:
                    os.mkdir(f)
                    continue
                t = content(f, k)
                files.append((base, k, n + "." + k, t))
                log.append([f, t])
            else:
                with open(f, "w") as o:
                    o.write('{"not": "looked at"}')
    for k in ("yaml", "json"):
        for base, kk, n, t in sorted((x for x in files if x[0] == used and x[1] == k), key=lambda x: x[2]):
            want = merged(want, t)
    c.what = [mode, log]
    try:
        got = config.get_config(d)
    except Exception as e:
        c.check(False, "loading failed:", repr(e))
        return
    c.check(same(got.raw_config, want), "loaded", got.raw_config, "not", want)
    env = want.get("environment", {})
    if isinstance(env, dict):
        c.check(got.environment == env, "environment is", got.environment, "not", env)


# ---------------------------------------------------------------- databases
ODD = ["a", "A", "a ", "b", "' OR '1'='1", "x' --", "%", "%s", "{}", "?", "_", "a.b", "\"q\"", "NULL", "0", "1",
       "a;DROP TABLE runs", "\u00e9", "a,b", "($ne)", "a\\"]


def jsonish(r, d=2):
    v = r.random()
    if d and v < .3:
        return {r.choice(["a", "b", "type", "description", "\u00e9"]): jsonish(r, d - 1) for _ in range(r.randint(0, 3))}
    if d and v < .45:
        return [jsonish(r, d - 1) for _ in range(r.randint(0, 3))]
    return r.choice([0, 1, -5, 2.5, True, False, None, "", "text", "' \" \\ %s {} ?", "\u00e9\u2028\n", 10 ** 15, "5",
                     "2026-01-01"])


def jsondict(r):
    return {r.choice(["a", "b", "environment", "type", "x y", "1"]): jsonish(r) for _ in range(r.randint(0, 3))}


def moment(r, base=None):
    t = base if base is not None else r.choice([r.randint(10 ** 9, 2 * 10 ** 9), r.randint(1767225600, 1767225700)])
    z = r.choice([UTC, datetime.timezone(datetime.timedelta(hours=-5)), datetime.timezone(datetime.timedelta(minutes=345))])
    us = r.choice([0, 1, 2, 499999, 500000, 999999, r.randint(0, 999999)])
    return (datetime.datetime.fromtimestamp(int(t), UTC) + datetime.timedelta(microseconds=us)).astimezone(z)


def config_of(d, jobs=(), database=None, **kw):
    from dsari import config
    cfg = {"data_dir": os.path.join(d, "data"), "jobs": jobs if isinstance(jobs, dict) else {n: {"command": ["true"]} for n in jobs}}
    if database:
        cfg["database"] = database
    cfg.update(kw)
    os.makedirs(os.path.join(d, "etc"), exist_ok=True)
    with open(os.path.join(d, "etc", "dsari.json"), "w") as f:
        json.dump(cfg, f)
    return config.get_config(os.path.join(d, "etc"))


def new_run(r, job, **kw):
    import dsari
    run = dsari.Run(job, **kw)
    run.schedule_time = moment(r)
    run.start_time = moment(r)
    run.trigger_type = r.choice(["schedule", "file"])
    run.trigger_data = jsondict(r)
    run.run_data = {}
    return run


KEYS = ("schedule_time", "start_time", "stop_time", "exit_code", "trigger_type", "trigger_data", "run_data")


def snap(run):
    d = {k: copy.deepcopy(getattr(run, k)) for k in KEYS}
    d["id"], d["job"] = run.id, run.job.name
    return d


def show(d):
    return {k: (v.isoformat() if isinstance(v, datetime.datetime) else v) for k, v in d.items()}


def same_run(a, b):
    """Instants are compared as such, everything else with its type."""
    for k in set(a) | set(b):
        x, y = a.get(k), b.get(k)
        if isinstance(x, datetime.datetime) and isinstance(y, datetime.datetime):
            if x.tzinfo is None or y.tzinfo is None or x != y:
                return False
        elif k in ("trigger_data", "run_data"):
            if json.dumps(x, sort_keys=True) != json.dumps(y, sort_keys=True):
                return False
        elif type(x) != type(y) or x != y:
            return False
    return True


def multiset(runs):
    return sorted((json.dumps(show(x), sort_keys=True, default=str) for x in runs))


def store_kinds(r, d):
    k = r.choice(["sqlite3", "sqlite3", "sqlite3", "mysql", "postgresql", "mongodb"])
    n = str(r.randint(0, 10 ** 9))
    return k, {"sqlite3": r.choice([None, {"type": "sqlite3", "file": os.path.join(d, "sub dir", "x.db")}, {"file": None}]),
               "mysql": {"type": "mysql", "connection": {"db": n}}, "postgresql": {"type": "postgresql", "dsn": n},
               "mongodb": {"type": "mongodb", "uri": n}}[k]


def records(c):
    """A history of recording and clearing runs, looked at in every way."""
    import dsari
    import stores
    from dsari import database
    r = c.r
    d = c.scratch()
    kind, dbcfg = store_kinds(r, d)
    stores.install()
    try:
        names = r.sample([n for n in ODD if re.fullmatch(NAME_RE, n)], 4)
        cfg = config_of(d, names[:3], dbcfg)
        db = database.get_database(cfg)
        gone = [dsari.Job(n) for n in r.sample(ODD, 3)]
        jobs = list(cfg.jobs.values()) + gone
        runs, running, live = {}, {}, []
        c.what = [kind, names]
        ids = list(ODD)
        r.shuffle(ids)
        for step in range(r.randint(4, 25)):
            v = r.random()
            if v < .45 or (not live and v < .85):
                run = new_run(r, r.choice(jobs), id=(ids.pop() if ids and r.random() < .5 else None))
                before = snap(run)
                db.insert_running_run(run)
                running[run.id] = snap(run)
                live.append(run)
                c.check(same_run(before, snap(run)), "recording changed the run", show(before), show(snap(run)))
            elif v < .85:
                run = live.pop(r.randrange(len(live)))
                run.stop_time = moment(r)
                run.exit_code = r.choice([0, 0, 1, 2, 143, 255])
                if r.random() < .5:
                    run.run_data = jsondict(r)
                before = snap(run)
                db.insert_run(run)
                runs[run.id] = snap(run)
                running.pop(run.id, None)
                c.check(same_run(before, snap(run)), "recording changed the run", show(before), show(snap(run)))
            elif v < .92:
                db.clear_runs_running()
                running = {}
            elif kind != "mongodb":
                db = database.get_database(cfg)
        if r.random() < .7:
            db = database.get_database(cfg)
        c.stats["records"] = len(runs) + len(running)
        for table, on in ((runs, False), (running, True)):
            def look(want, msg, **kw):
                if r.random() < .5:
                    kw["runs_running"] = on
                elif on:
                    kw["runs_running"] = True
                try:
                    got = db.get_runs(**kw)
                except Exception as e:
                    c.check(False, "reading", kw, "failed:", repr(e))
                    return
                g = {x.id: x for x in got}
                c.check(len(got) == len(g), "a record is returned twice for", kw)
                c.check(set(g) == set(w["id"] for w in want), "for", kw, "of", list(table), "got", sorted(g), "not",
                        sorted(w["id"] for w in want))
                for w in want:
                    if w["id"] not in g:
                        continue
                    x = dict(w)
                    if on:
                        x["stop_time"] = x["exit_code"] = None
                        x["run_data"] = w["run_data"]
                    run = g[w["id"]]
                    c.check(same_run(snap(run), x), "recorded", show(x), "but read", show(snap(run)))
                    if w["job"] in cfg.jobs:
                        c.check(run.job is cfg.jobs[w["job"]], "not the configured job of", run)
                    else:
                        c.check(isinstance(run.job, dsari.Job), "no stand-in job for", run)
            all_ = list(table.values())
            look(all_, "all")
            for _ in range(3):
                q = r.sample(ODD, r.randint(1, 4))
                look([x for x in all_ if x["job"] in q], "jobs", job_names=q)
                q = r.sample(ODD + list(runs) + list(running), r.randint(1, 4))
                look([x for x in all_ if x["id"] in q], "ids", run_ids=q)
            if kind in ("sqlite3", "mongodb"):
                look([], "none", run_ids=[])
                look([], "none", job_names=[])
    finally:
        stores.remove()


NAME_RE = r"[- A-Za-z0-9_+.:@]{1,64}"


def previous(c):
    import dsari
    import stores
    from dsari import database
    r = c.r
    d = c.scratch()
    kind, dbcfg = store_kinds(r, d)
    stores.install()
    try:
        cfg = config_of(d, ["a", "b"], dbcfg)
        db = database.get_database(cfg)
        jobs = list(cfg.jobs.values()) + [dsari.Job("A"), dsari.Job("a ")]
        done = []
        base = r.randint(10 ** 9, 2 * 10 ** 9)
        times = r.sample(range(3000000), 24)
        c.what = [kind, base]
        odd = r.random()
        for _ in range(r.randint(0, 14)):
            run = new_run(r, r.choice(jobs))
            db.insert_running_run(run)
            if r.random() < .2:
                continue
            run.stop_time = datetime.datetime.fromtimestamp(base, UTC) + datetime.timedelta(
                microseconds=times.pop() * (1 if odd < .7 else 86400))
            run.exit_code = r.choice([0, 0, 1, 255, 137]) if r.random() < .8 else r.choice([0, 1])
            run.run_data = jsondict(r)
            db.insert_run(run)
            done.append(snap(run))
            c.what.append([run.job.name, run.stop_time.isoformat(), run.exit_code])
        for job in jobs:
            mine = sorted((x for x in done if x["job"] == job.name), key=lambda x: x["stop_time"])
            want = [mine, [x for x in mine if x["exit_code"] == 0], [x for x in mine if x["exit_code"] != 0]]
            got = db.get_previous_runs(job)
            for what, w, g in zip(("previous", "previous good", "previous bad"), want, got):
                if not w:
                    c.check(g is None, "the", what, "run of", job, "is", g, "but there is none")
                elif c.check(g is not None, "no", what, "run of", job, "but", show(w[-1])):
                    c.check(same_run(snap(g), w[-1]), "the", what, "run of", job, "is", show(snap(g)), "not", show(w[-1]))
    finally:
        stores.remove()


def atomic(c):
    """What another reader of the database sees while a run is recorded."""
    import sqlite3
    from dsari import database
    r = c.r
    d = c.scratch()
    cfg = config_of(d, ["a"])
    job = cfg.jobs["a"]
    seen = []
    path = os.path.join(d, "data", "dsari.sqlite3")
    real = sqlite3.connect

    def look(x=None):
        o = real(path, timeout=0)
        try:
            out = []
            o.execute("BEGIN")
            for t in ("runs", "runs_running"):
                try:
                    out.append(sorted(x[0] for x in o.execute("SELECT run_id FROM %s" % t)))
                except sqlite3.OperationalError as e:
                    if "locked" in str(e):
                        return None
                    out.append([])
            return out
        finally:
            o.close()

    def connect(*a, **kw):
        x = real(*a, **kw)
        x.set_trace_callback(lambda s: seen.append(look(s)))
        return x
    sqlite3.connect = connect
    try:
        db = database.get_database(cfg)
        n = r.randint(1, 4)
        running, done = [], []
        c.what = []
        for _ in range(r.randint(2, 10)):
            before = [sorted(x.id for x in done), sorted(x.id for x in running)]
            del seen[:]
            if r.random() < .55 or not running:
                run = new_run(r, job)
                running.append(run)
                db.insert_running_run(run)
                c.what.append("start")
            else:
                run = running.pop(r.randrange(len(running)))
                run.stop_time, run.exit_code = moment(r), r.choice([0, 3])
                done.append(run)
                db.insert_run(run)
                c.what.append("stop")
            after = [sorted(x.id for x in done), sorted(x.id for x in running)]
            for s in seen:
                c.check(s is None or s == before or s == after, "a reader saw", s, "between", before, "and", after)
            c.check(look() == after, "recorded is", look(), "not", after)
        if r.random() < .5:
            db.clear_runs_running()
            c.check(look() == [sorted(x.id for x in done), []], "after clearing:", look())
            c.what.append("clear")
    finally:
        sqlite3.connect = real


# ---------------------------------------------------------------- reports
def quiet():
    import logging
    logging.getLogger().handlers[:] = []


OUTPUTS = [b"", b"x", b"hello\n", b"<b>&amp;</b>\n'\"\n", b"\xff\xfe bad \x80", "\u00e9\u2028\U0001f600".encode(),
           b"line\r\nline\r", b"0123456789" * 3, b"</pre><script>alert(1)</script>", b"{{ 7*7 }}\n", b" lead", b"\n\nx\n\n"]


def put_output(r, d, run, data, how=None):
    p = os.path.join(d, "data", "runs", run.job.name, run.id)
    os.makedirs(p, exist_ok=True)
    how = how or r.choice(["plain", "plain", "gz", "xz", "xz2", "gz2", "none"])
    f = os.path.join(p, "output.txt")
    k = r.randint(0, len(data))
    if how == "plain":
        open(f, "wb").write(data)
    elif how == "gz":
        with gzip.open(f + ".gz", "wb") as o:
            o.write(data)
    elif how == "gz2":
        with open(f + ".gz", "wb") as o:
            o.write(gzip.compress(data[:k]) + gzip.compress(data[k:]))
    elif how == "xz":
        with lzma.open(f + ".xz", "wb") as o:
            o.write(data)
    elif how == "xz2":
        with open(f + ".xz", "wb") as o:
            o.write(lzma.compress(data[:k]) + lzma.compress(data[k:]))
    return None if how == "none" else data.decode("utf-8", "replace")


def page(path):
    for f, op in ((path, open), (path + ".gz", gzip.open)):
        if os.path.exists(f):
            with op(f, "rb") as o:
                return o.read().decode("utf-8")
    return None


def unescape(s):
    import html
    return html.unescape(s)


def hrefs(text):
    return [unescape(x) for x in re.findall(r'<td><a href="([^"]*)">', text)]


def reports(c):
    import dsari.render
    from dsari import database
    r = c.r
    d = c.scratch()
    start, end = r.choice([(0, 0), (0, 0), (5, 5), (10, 0), (0, 7), (3, 40), (40, 3), (1, 1), (15, 15)])
    gz = r.random() < .3
    names = r.sample(["a", "A b", "x:1@y", "-", "job", "z+z"], r.randint(1, 4))
    kw = dict(report_run_output_start=start, report_run_output_end=end, report_html_gz=gz)
    jobs = {n: {"command": ["true"], "render_reports": r.random() < .8} for n in names}
    if not any(j["render_reports"] for j in jobs.values()):
        jobs[names[0]]["render_reports"] = True
    cfg0 = config_of(d, jobs, **kw)
    db = database.get_database(cfg0)
    shown = [n for n in names if jobs[n]["render_reports"]]
    done, outs = [], {}
    c.what = [kw, jobs]
    many = r.random() < .25
    args = types.SimpleNamespace(config_dir=os.path.join(d, "etc"), debug=False, regenerate=False)
    html = os.path.join(d, "data", "html")
    old, stamps = set(), set()
    for rnd in range(r.randint(1, 3)):
        added = set()
        for _ in range(r.randint(20, 45) if many and rnd == 0 else r.randint(0, 5)):
            import dsari
            run = new_run(r, cfg0.jobs[r.choice(names)])
            run.start_time = moment(r)
            while True:
                run.stop_time = run.start_time + datetime.timedelta(seconds=r.choice([0.5, 7, 300, 86400 * r.random()]))
                if run.stop_time not in stamps:
                    break
                run.start_time += datetime.timedelta(microseconds=17)
            stamps.add(run.stop_time)
            run.exit_code = r.choice([0, 0, 1, 9, 255])
            run.trigger_data = {}
            if r.random() < .5:
                run.trigger_data = {"description": r.choice(["<i>d&d</i>", "it's \"x\"", "\u00e9 plain"]),
                                    "type": r.choice(["<u>git</u>", "git", ""])}
            db.insert_running_run(run)
            if r.random() < .1:
                continue
            db.insert_run(run)
            done.append(run)
            added.add(run.id)
            outs[run.id] = put_output(r, d, run, r.choice(OUTPUTS))
        regen = r.random() < .2
        args.regenerate = regen
        marked = {}
        for run in done:    # pages which exist already
            p = os.path.join(html, run.job.name, run.id, "index.html") + (".gz" if gz else "")
            if os.path.exists(p):
                old.add(run.id)
                with (gzip.open if gz else open)(p, "wb") as f:
                    f.write(b"as it was")
        try:
            dsari.render.Renderer(args).render()
        except Exception as e:
            import traceback
            c.check(False, "rendering failed:", traceback.format_exc()[-800:])
            return
        finally:
            quiet()
        for run in done:
            p = os.path.join(html, run.job.name, run.id, "index.html")
            t = page(p)
            if run.job.name not in shown:
                c.check(t is None, "a page of", run.job.name, "which has no reports")
                continue
            if not c.check(t is not None, "no page of", run):
                continue
            c.check(os.path.exists(p + ".gz") == gz and os.path.exists(p) == (not gz), "compressed:", not gz)
            if run.id in old and not regen:
                c.check(t == "as it was", "the page of", run, "was written again")
                continue
            m = re.search(r"<pre>(.*)</pre>", t, re.S)
            out = outs[run.id]
            c.check(run.id in t and escape(run.job.name) in t and ">%s</td>" % run.exit_code in t, "page of", run, "is", t)
            if not c.check(m is not None, "no output in", t):
                continue
            c.check("<" not in m.group(1), "not escaped:", m.group(1))
            got = unescape_once(m.group(1))
            if out is None:
                pass
            elif (start > 0 and len(out) > start) or (end > 0 and len(out) > end) or \
                    ((start or end) and len(out) > start + end):
                a, b = out[:start], out[max(0, len(out) - end):] if end else ""
                mid = got[len(a):len(got) - len(b)]
                c.check(got.startswith(a) and got.endswith(b) and len(got) >= len(a) + len(b) and mid.strip() == "[...]"
                        and mid[:1] == "\n", "output", repr(out), "limited to", start, end, "is", repr(got))
            else:
                c.check(got == out, "output", repr(out), "limited to", start, end, "is", repr(got))
            for k in ("description", "type"):
                v = run.trigger_data.get(k)
                if v and (k == "description" or run.trigger_type == "file"):
                    c.check(escape(v) in t, k, repr(v), "of", run, "is not on its page")
                if v and "<" in v:
                    c.check(v not in t, k, repr(v), "is not escaped")
        changed = False
        for n in shown:
            mine = sorted((x for x in done if x.job.name == n), key=lambda x: x.stop_time, reverse=True)
            t = page(os.path.join(html, n, "index.html"))
            if any(x.id in added for x in mine):
                changed = True
                if c.check(t is not None, "no page of job", n):
                    c.check(hrefs(t) == [x.id + "/" for x in mine], "runs on the page of", n, "are", hrefs(t), "not",
                            [x.id for x in mine])
            elif t is not None:
                c.check(hrefs(t) == [x.id + "/" for x in mine], "page of", n, "is out of date")
            c.check(not os.path.exists(os.path.join(html, n, "index.html" + ("" if gz else ".gz"))), "compressed?", n)
        for n in names:
            if n not in shown:
                c.check(not os.path.exists(os.path.join(html, n)), "a page of", n)
        if changed or regen:
            t = page(os.path.join(html, "index.html"))
            if not c.check(t is not None, "no index"):
                continue
            vis = sorted((x for x in done if x.job.name in shown), key=lambda x: x.stop_time, reverse=True)
            parts = re.split(r"<h2>", t)
            tab = {x.split("</h2>")[0]: x for x in parts[1:]}
            c.check(hrefs(tab["Latest Runs"]) == ["%s/%s/" % (x.job.name, x.id) for x in vis[:25]], "latest runs are",
                    hrefs(tab["Latest Runs"]))
            bad = [x for x in vis if x.exit_code != 0]
            c.check(hrefs(tab["Failed Runs"]) == ["%s/%s/" % (x.job.name, x.id) for x in bad[:10]], "failed runs are",
                    hrefs(tab["Failed Runs"]), "not", [x.id for x in bad[:10]])
            c.check(sorted(hrefs(tab["Jobs"])) == sorted("%s/" % n for n in shown), "jobs are", hrefs(tab["Jobs"]))
            for row in re.findall(r"<tr[^>]*>\s*<td><a href.*?</tr>", tab["Jobs"], re.S):
                n = hrefs(row)[0][:-1]
                cells = re.findall(r"<td>(.*?)</td>", row, re.S)
                mine = [x for x in vis if x.job.name == n]
                good = [x for x in mine if x.exit_code == 0]
                for cell, w in ((cells[1], mine), (cells[3], good)):
                    want = w[0].start_time.astimezone().strftime("%Y-%m-%d %H:%M:%S") if w else ""
                    c.check(cell.startswith(want) if want else not re.search(r"\d", cell), "last run of", n, "is", cell,
                            "not", want)


def escape(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace("'", "&#39;").replace('"', "&#34;")


def unescape_once(s):
    return s.replace("&lt;", "<").replace("&gt;", ">").replace("&#39;", "'").replace("&#34;", '"').replace("&amp;", "&")


# ---------------------------------------------------------------- metrics
def parse_metrics(c, text):
    out, seen, types_ = {}, {}, {}
    cur = None
    for line in text.split("\n"):
        if not line:
            continue
        m = re.fullmatch(r"# (HELP|TYPE) (\S+) (.*)", line)
        if m:
            if m.group(1) == "TYPE":
                c.check(m.group(2) not in types_, "two types of", m.group(2))
                c.check(not any(k[0] == m.group(2) for k in out), "type of", m.group(2), "after its samples")
                types_[m.group(2)] = m.group(3)
            continue
        m = re.fullmatch(r'(\w+)(?:\{(.*)\})? (\S+)', line)
        if not c.check(m is not None, "not a sample:", line):
            continue
        labels = tuple(sorted(re.findall(r'(\w+)="([^"]*)"', m.group(2) or "")))
        k = (m.group(1), labels)
        c.check(k not in out, "sample", k, "appears twice")
        out[k] = float(m.group(3))
    return out


def quantile(v, q):
    v = sorted(v)
    k = (len(v) - 1) * q
    f = int(k)
    return v[f] if f + 1 >= len(v) else v[f] + (v[f + 1] - v[f]) * (k - f)


def close(a, b):
    return abs(a - b) <= 1e-6 * max(1, abs(a), abs(b))


def metrics(c):
    import dsari.prometheus_exporter as pe
    from dsari import database
    r = c.r
    d = c.scratch()
    names = r.sample(["a", "A b", "x:1@y", "-", "job", "z+z"], r.randint(1, 4))
    cfg = config_of(d, names)
    db = database.get_database(cfg)
    import dsari
    jobs = list(cfg.jobs.values()) + [dsari.Job("gone")]
    done, running = [], []
    now = 1800000000.0 + r.randint(0, 10 ** 6)
    clock(now)
    try:
        qs = r.sample(["0.01", "0.1", "0.5", "0.9", "0.99", "0", "1", "0.25", "0.333"], r.randint(1, 4))
        cache = r.choice([0, 1, 30, 120])
        args = types.SimpleNamespace(config_dir=os.path.join(d, "etc"), quantiles=",".join(qs), job_cache_time=cache,
                                     no_running=r.random() < .3, debug=False, metrics_path="/metrics")
        c.what = [names, qs, cache]
        p = pe.Prometheus(args)
        last_fresh = None
        for _ in range(r.randint(1, 4)):
            for _ in range(r.randint(0, 6)):
                run = new_run(r, r.choice(jobs))
                run.start_time = run.schedule_time + datetime.timedelta(seconds=r.choice([0, .5, 3, 1000 * r.random()]))
                db.insert_running_run(run)
                running.append(run)
            while running and r.random() < .8:
                run = running.pop(r.randrange(len(running)))
                run.stop_time = run.start_time + datetime.timedelta(seconds=r.choice([0, .25, 60, 10 ** 4 * r.random()]))
                if any(x.job is run.job and x.stop_time == run.stop_time for x in done):
                    run.stop_time += datetime.timedelta(microseconds=r.randint(1, 10 ** 6))
                run.exit_code = r.choice([0, 0, 1, 255])
                db.insert_run(run)
                done.append(run)
            step = r.choice([0, cache / 2, cache + .001, cache + 1, 3 * cache + 5])
            now += step
            clock(now)
            got = parse_metrics(c, p.get_metrics())
            fresh = last_fresh is None or now - last_fresh[0] > cache
            want = wanted(names, done, [float(q) for q in qs])
            part = {k: v for k, v in got.items() if k[0].startswith(("dsari_run_", "dsari_last_"))}
            ok = same_samples(part, want)
            if not ok and not fresh:
                ok = same_samples(part, last_fresh[1])
                c.check(ok, "neither the current metrics nor those of", now - last_fresh[0], "s ago: ",
                        diff(part, want))
            else:
                c.check(ok, "metrics differ:", diff(part, want))
                last_fresh = (now, want) if ok else last_fresh
            rr = {k: v for k, v in got.items() if k[0].startswith("dsari_running_")}
            w = {}
            if not args.no_running:
                for x in running:
                    if x.job.name in names:
                        for n, t in (("schedule", x.schedule_time), ("start", x.start_time)):
                            w[("dsari_running_run_%s_time" % n, (("job_name", x.job.name), ("run_id", x.id)))] = \
                                t.timestamp()
            c.check(same_samples(rr, w), "running metrics differ:", diff(rr, w))
            c.check(close(got.get(("dsari_time", ()), 0), now), "time is", got.get(("dsari_time", ())))
        # quantiles of any values
        for _ in range(5):
            v = sorted(r.choice([r.random() * 100, r.randint(-5, 5)]) for _ in range(r.randint(1, 12)))
            q = r.choice([0, 1, .5, r.random()])
            g = pe.percentile(v, q)
            c.check(close(g, quantile(v, q)) and v[0] - 1e-9 <= g <= v[-1] + 1e-9, "quantile", q, "of", v, "is", g)
        # after a reload
        if r.random() < .5:
            config_of(d, names + ["added"])
            p.load_config()
            got = parse_metrics(c, p.get_metrics())
            c.check(("dsari_run_count", (("job_name", "added"),)) in got, "no metrics of a new job after a reload")
    finally:
        sim.NS.value = 0
        quiet()


def wanted(names, done, qs):
    w = {}
    for n in names:
        j = (("job_name", n),)
        mine = sorted((x for x in done if x.job.name == n), key=lambda x: x.stop_time)
        w[("dsari_run_count", j)] = len(mine)
        w[("dsari_run_success_count", j)] = sum(x.exit_code == 0 for x in mine)
        w[("dsari_run_failure_count", j)] = sum(x.exit_code != 0 for x in mine)
        if not mine:
            continue
        for k, v in (("duration", [(x.stop_time - x.start_time).total_seconds() for x in mine]),
                     ("latency", [(x.start_time - x.schedule_time).total_seconds() for x in mine])):
            for q in qs:
                w[("dsari_run_%s_seconds" % k, j + (("quantile", str(q)),))] = quantile(v, q)
            w[("dsari_run_%s_seconds_sum" % k, j)] = sum(v)
            w[("dsari_run_%s_seconds_count" % k, j)] = len(v)
        last = mine[-1]
        w[("dsari_last_run_exit_code", j)] = last.exit_code
        for k in ("schedule", "start", "stop"):
            w[("dsari_last_run_%s_time" % k, j)] = getattr(last, k + "_time").timestamp()
    return w


def norm(k):
    return (k[0], tuple((a, float(b) if a == "quantile" else b) for a, b in k[1]))


def same_samples(a, b):
    a = {norm(k): v for k, v in a.items()}
    b = {norm(k): v for k, v in b.items()}
    return set(a) == set(b) and all(close(a[k], b[k]) for k in a)


def diff(a, b):
    a = {norm(k): v for k, v in a.items()}
    b = {norm(k): v for k, v in b.items()}
    return ["%s: %s, expected %s" % (k, a.get(k), b.get(k)) for k in sorted(set(a) | set(b))
            if k not in a or k not in b or not close(a[k], b[k])][:5]


# ---------------------------------------------------------------- information
def captured(fn):
    import contextlib
    o, e = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
        fn()
    return o.getvalue()


def info(c):
    import dsari
    import dsari.info
    import yaml
    from dsari import database, utils
    r = c.r
    d = c.scratch()
    clock(1800000000 + r.randint(0, 10 ** 7))
    try:
        cfg, want = None, None
        while True:
            cfg, want = make_config(r, False)
            cfg["database"] = {"type": "sqlite3", "file": os.path.join(d, "x.db")}
            cfg["data_dir"] = os.path.join(d, "data")
            cfg.pop("template_dir", None)
            if cfg.get("jobs"):
                break
        c.what = cfg
        os.makedirs(os.path.join(d, "etc"))
        with open(os.path.join(d, "etc", "dsari.json"), "w") as f:
            json.dump(cfg, f)

        def new(**kw):
            class P:
                def error(self, m):
                    raise SystemExit(m)
            return dsari.info.Info(types.SimpleNamespace(config_dir=os.path.join(d, "etc"), parser=P(), **kw))
        names = sorted(want["jobs"])
        # ---- jobs
        for flt in (None, r.sample(names, min(len(names), 1)) + ["nobody"], ["nobody"]):
            i = new(job=flt, format=r.choice(["json", "yaml"]))
            text = captured(i.cmd_list_jobs)
            got = json.loads(text) if i.args.format == "json" else yaml.safe_load(text)
            sel = [n for n in names if flt is None or n in flt]
            c.check(set(got) == set(sel), "jobs listed for", flt, "are", sorted(got), "not", sel)
            for n in sel:
                if n not in got:
                    continue
                w, g = want["jobs"][n], got[n]
                for o in ("command", "command_append_run", "schedule", "environment", "render_reports",
                          "jenkins_environment", "job_group", "concurrent_runs"):
                    c.check(g.get(o) == w[o], o, "of", n, "is", repr(g.get(o)), "not", repr(w[o]))
                for o in ("max_execution", "max_execution_grace"):
                    x = w[o][1] if isinstance(w[o], tuple) else w[o]
                    c.check((g.get(o) is None) == (x is None) and (x is None or abs(g[o] - x) < 1e-6), o, "of", n, "is",
                            g.get(o), "not", x)
                c.check(sorted(g.get("concurrency_groups")) == sorted(w["groups"]), "groups of", n, g)
                nx = g.get("next_scheduled_run")
                if not w["schedule"]:
                    c.check(nx is None, "next run of", n, "without a schedule is", nx)
                else:
                    t = utils.get_next_schedule_time(w["schedule"], n, utils.dtnow(w["zone"]))
                    c.check(nx is not None and datetime.datetime.fromisoformat(nx) == t, "next run of", n, "is", nx, "not", t)
            for f in ("tabular", "pretty"):
                text = captured(new(job=flt, format=f).cmd_list_jobs)
                lines = text.split("\n")
                for n in names:
                    hit = [x for x in lines if (x.split("\t")[0] == n if f == "tabular" else x.startswith(n + " "))]
                    if f == "tabular":
                        c.check(bool(hit) == (n in sel), "job", n, "in", f, "list for", flt, ":", text)
                    elif n in sel:
                        c.check(hit, "job", n, "in", f, "list for", flt, ":", text)
        # ---- runs
        config = dsari.config.get_config(os.path.join(d, "etc"))
        db = database.get_database(config)
        jobs = list(config.jobs.values()) + [dsari.Job("gone")]
        done, running, outs = [], [], {}
        for _ in range(r.randint(1, 8)):
            run = new_run(r, r.choice(jobs))
            db.insert_running_run(run)
            if r.random() < .7:
                run.stop_time = run.start_time + datetime.timedelta(seconds=r.random() * 1000)
                run.exit_code = r.choice([0, 1, 200])
                run.run_data = jsondict(r)
                db.insert_run(run)
                done.append(run)
            else:
                running.append(run)
            data = r.choice(OUTPUTS)
            outs[run.id] = put_output(r, d, run, data)
            if outs[run.id] is not None and r.random() < .3:
                # the best one is used
                p = os.path.join(d, "data", "runs", run.job.name, run.id, "output.txt")
                if os.path.exists(p):
                    with gzip.open(p + ".gz", "wb") as o:
                        o.write(b"not this one")
                elif os.path.exists(p + ".gz"):
                    with lzma.open(p + ".xz", "wb") as o:
                        o.write(b"not this one")
        everything = done + running
        for jf, rf in ((None, None), (r.sample([j.name for j in jobs], 1) + ["nobody"], None),
                       (None, [r.choice(everything).id, "none"]), (None, ["none"]), (["nobody"], None)):
            i = new(job=jf, run=rf, format=r.choice(["json", "yaml"]))
            text = captured(i.cmd_list_runs)
            got = (json.loads(text) if i.args.format == "json" else yaml.safe_load(text)) or {}
            sel = [x for x in everything if (jf is None or x.job.name in jf) and (rf is None or x.id in rf)]
            c.check(set(got) == {x.id for x in sel}, "runs listed for", jf, rf, "are", sorted(got))
            for x in sel:
                g = got.get(x.id)
                if g is None:
                    continue
                on = x in running
                for k in ("schedule_time", "start_time", "stop_time"):
                    v = None if on and k == "stop_time" else getattr(x, k)
                    c.check((g[k] is None and v is None) if v is None or g[k] is None else
                            datetime.datetime.fromisoformat(g[k]) == v, k, "of", x, "is", g[k], "not", v)
                c.check(g["exit_code"] == (None if on else x.exit_code) and g["job_name"] == x.job.name and
                        g["trigger_type"] == x.trigger_type and same(g["trigger_data"], x.trigger_data) and
                        same(g["run_data"], x.run_data), "run", show(snap(x)), "is listed as", g)
            text = captured(new(job=jf, run=rf, format="tabular").cmd_list_runs)
            rows = [x.split("\t") for x in text.split("\n") if x]
            c.check(sorted(x[0] for x in rows) == sorted(x.id for x in sel), "runs listed for", jf, rf, ":", text)
            for row in rows:
                x = next((x for x in sel if x.id == row[0]), None)
                if x is not None:
                    on = x in running
                    c.check(row[1] == x.job.name and row[2] == ("" if on else str(x.exit_code)) and
                            row[3] == x.trigger_type and datetime.datetime.fromisoformat(row[4]) == x.schedule_time and
                            datetime.datetime.fromisoformat(row[5]) == x.start_time and
                            ((row[6] == "") if on else datetime.datetime.fromisoformat(row[6]) == x.stop_time),
                            "run", show(snap(x)), "is listed as", row)
            text = captured(new(job=jf, run=rf, format="pretty").cmd_list_runs)
            for x in everything:
                hit = [l for l in text.split("\n") if l.startswith(x.id)]
                c.check(len(hit) == (1 if x in sel else 0), "run", x, "in the list for", jf, rf, text)
                if hit and x in sel:
                    c.check(hit[0][len(x.id):].split()[0] == ("..." if x in running else str(x.exit_code)), "exit code of",
                            x, "in", hit[0])
        # ---- output
        for x in everything:
            text = captured(new(run=x.id).cmd_get_run_output)
            c.check(text == (outs[x.id] or ""), "output of", x, "is", repr(text), "not", repr(outs[x.id]))
        try:
            captured(new(run="none").cmd_get_run_output)
            c.check(False, "no error for an unknown run")
        except SystemExit:
            pass
        # ---- configuration
        text = captured(new(raw=True, format="json").cmd_dump_config)
        c.check(same(json.loads(text), cfg), "raw configuration is", text)
        try:
            got = json.loads(captured(new(raw=False, format="json").cmd_dump_config))
            c.check(set(got["jobs"]) == set(names) and {k: v["max"] for k, v in got["concurrency_groups"].items()} ==
                    want["groups"], "configuration dump is", got)
            for o in ("report_html_gz", "report_run_output_start", "report_run_output_end", "shutdown_kill_runs",
                      "environment", "data_dir"):
                if o in cfg and o in want["base"] and o != "data_dir":
                    c.check(got[o] == want["base"][o], o, "is dumped as", got[o])
        except (ValueError, KeyError) as e:
            c.check(False, "configuration dump:", repr(e))
    finally:
        sim.NS.value = 0


CASES = {
    "C07": [atomic],
    "C12": [cron_hash, cron_hash, cron_alias, cron_random, other_process],
    "C13": [next_cron, next_rrule, other_process],
    "C14": [config_load, config_load, config_load, names_ok],
    "C15": [merge_files, merge_dicts],
    "C16": [records, records, atomic],
    "C17": [previous],
    "C19": [reports],
    "C20": [metrics],
    "C21": [info],
}
