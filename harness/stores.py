"""Stand-ins for the database drivers which are not installed.

They implement just the documented behaviour the program relies on: the SQL
ones are backed by an in-memory sqlite3 database per server, with datetime
values kept as they are given; the document store matches by equality, $in,
$ne, $nin, $gt(e) and $lt(e).
"""
import copy
import datetime
import pickle
import re
import sqlite3
import sys
import types

SERVERS = {}


def enc(v):
    return b"DT" + pickle.dumps(v) if isinstance(v, datetime.datetime) else v


def sort_key(v):
    return v


class Cursor:
    def __init__(self, conn):
        self.conn = conn
        self.cur = conn.db.cursor()
        self.pending = None

    def execute(self, sql, args=None):
        if re.search(r"information_schema\s*\.\s*tables", sql):
            m = re.search(r"table_name\s*=\s*'(\w+)'", sql)
            self.cur.execute("SELECT name FROM sqlite_master WHERE type='table' AND name=?", (m.group(1),))
            return
        if args is not None:
            n = len(args)
            assert sql.count("%s") == n, "placeholders %r do not match %r" % (sql, args)
            sql = sql.replace("%s", "?")
            args = [stamp(a) if isinstance(a, datetime.datetime) else a for a in args]
        if re.match(r"\s*CREATE\s+TABLE", sql, re.I):
            # values are kept as they are given, whatever the type of the column
            sql = re.sub(r"\b(uuid|timestamp( with time zone)?|timestamptz|datetime(\(\d\))?|json[b]?|text|mediumtext|longtext"
                         r"|varchar\(\d+\)|char\(\d+\)|smallint|tinyint|integer|int|unsigned)\b(?=\s|,|\))", "blob", sql,
                         flags=re.I)
            sql = re.sub(r"(\bblob\s+)+", "blob ", sql)
        self.cur.execute(sql, args or [])

    def row(self, r):
        if r is None:
            return None
        return {d[0]: unstamp(v) for d, v in zip(self.cur.description, r)}

    def fetchone(self):
        return self.row(self.cur.fetchone())

    def fetchall(self):
        return [self.row(r) for r in self.cur.fetchall()]

    def __iter__(self):
        return iter(self.fetchall())

    def close(self):
        self.cur.close()


def stamp(d):
    """Sorts as text in the order of time."""
    u = d.astimezone(datetime.timezone.utc)
    return "\x01%s|%s" % (u.strftime("%Y%m%d%H%M%S%f"), d.isoformat())


def unstamp(v):
    if isinstance(v, str) and v.startswith("\x01"):
        return datetime.datetime.fromisoformat(v.split("|", 1)[1])
    return v


class Connection:
    def __init__(self, server):
        self.db = SERVERS.setdefault(server, None) or sqlite3.connect(":memory:")
        SERVERS[server] = self.db
        self.cursor_factory = None

    def cursor(self, *a, **kw):
        return Cursor(self)

    def commit(self):
        self.db.commit()

    def rollback(self):
        self.db.rollback()

    def close(self):
        pass


class Result:
    def __init__(self, docs):
        self.docs = docs

    def sort(self, keys, direction=None):
        if isinstance(keys, str):
            keys = [(keys, direction or 1)]
        for k, d in reversed(list(keys)):
            self.docs.sort(key=lambda x: x[k], reverse=d < 0)
        return self

    def limit(self, n):
        if n:
            self.docs = self.docs[:n]
        return self

    def __getitem__(self, i):
        if i >= len(self.docs):
            raise IndexError("no such item for Cursor instance")
        return copy.deepcopy(self.docs[i])

    def __iter__(self):
        return iter(copy.deepcopy(self.docs))


def match(doc, where):
    for k, w in (where or {}).items():
        if isinstance(w, dict) and any(x.startswith("$") for x in w):
            for op, x in w.items():
                v = doc.get(k)
                ok = {"$in": lambda: v in x, "$ne": lambda: v != x, "$nin": lambda: v not in x, "$eq": lambda: v == x,
                      "$gt": lambda: v > x, "$gte": lambda: v >= x, "$lt": lambda: v < x,
                      "$lte": lambda: v <= x}[op]()
                if not ok:
                    return False
        elif doc.get(k) != w:
            return False
    return True


class Collection:
    def __init__(self):
        self.docs = []

    def find(self, where=None):
        return Result([d for d in self.docs if match(d, where)])

    def find_one(self, where=None):
        return next(iter(self.find(where)), None)

    def insert_one(self, d):
        self.docs.append(copy.deepcopy(d))

    def delete_many(self, where):
        self.docs = [d for d in self.docs if not match(d, where)]

    def delete_one(self, where):
        for d in self.docs:
            if match(d, where):
                self.docs.remove(d)
                return


class DB:
    def __init__(self):
        self.cols = {}

    def __getitem__(self, n):
        return self.cols.setdefault(n, Collection())

    def __getattr__(self, n):
        if n[0] == "_":
            raise AttributeError(n)
        return self[n]


class MongoClient:
    def __init__(self, uri=None, **kw):
        self.server = SERVERS.setdefault(("mongo", uri), {})

    def __getitem__(self, n):
        return self.server.setdefault(n, DB())


def install():
    def mod(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        sys.modules[name] = m
        return m
    mod("MySQLdb", connect=lambda **kw: Connection(("my", kw["db"])))
    sys.modules["MySQLdb"].cursors = mod("MySQLdb.cursors", DictCursor="dict")
    mod("psycopg2", connect=lambda dsn: Connection(("pg", dsn)))
    sys.modules["psycopg2"].extras = mod("psycopg2.extras", DictCursor="dict")
    mod("pymongo", MongoClient=MongoClient, DESCENDING=-1, ASCENDING=1)


def remove():
    for n in ("MySQLdb", "MySQLdb.cursors", "psycopg2", "psycopg2.extras", "pymongo"):
        sys.modules.pop(n, None)
    SERVERS.clear()
