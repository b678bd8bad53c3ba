"""The disk, sqlite and the death of a process, for the disk cache harnesses.

sqlite and the file system are the real ones in both modes, inside a scratch directory. What is added:
- a point before each durable effect (rename, unlink, rmtree, database commit, and those the creators of
  the harness announce), where a chosen one ends the process: nothing after it happens;
- deletions and renames that leave the scratch directory are recorded and not done;
- in the symbolic runs, sizes of files are symbolic: stored in the database as tokens, which SUM() adds up.
"""
import os
import re
import shutil
import sqlite3
import tempfile
import time

REAL = {}


START = int(time.time())


class Crash(BaseException):
    """The process ends here."""


class State:
    def __init__(self):
        self.sym = False
        self.reset()

    def reset(self):
        for c in getattr(self, "conns", []):
            close(c)
        self.on = False
        self.root = None
        self.n = 0
        self.at = None
        self.dead = False
        self.escaped = []
        self.removed = []
        self.conns = []
        self.sizes = {}
        self.mtimes = {}
        self.now = START
        self.pending = None
        self.log = []


D = State()


def close(c):
    try:
        sqlite3.Connection.close(c)
    except sqlite3.Error:
        pass


def point(what):
    if not D.on:
        return
    if D.dead:
        raise Crash()
    from . import sched

    if sched.S.preempt is not None:
        sched.S.point("effect", what.split(" ")[0], 0)
    D.n += 1
    D.log.append(what)
    if D.at is not None and D.at == D.n:
        D.dead = True
        raise Crash(what)


def under(path, top):
    path = os.path.realpath(os.path.dirname(os.path.abspath(path)))
    top = os.path.realpath(top)
    return path == top or path.startswith(top + os.sep)


def mine(path, what):
    """True: do it. None: not ours, do it without a point. False: it leaves the scratch directory."""
    if not D.on or D.root is None:
        return None
    if under(path, D.root):
        return True
    if under(path, tempfile.gettempdir()) or under(path, os.environ["HOME"]):
        return None  # both belong to this run
    D.escaped.append((what, os.path.abspath(path)))
    return False


def moved(src, dst):
    for p in list(D.sizes):
        if p == dst or p.startswith(dst + os.sep):
            del D.sizes[p]
    for p in list(D.sizes):
        if p == src or p.startswith(src + os.sep):
            D.sizes[dst + p[len(src) :]] = D.sizes.pop(p)


def _rename(name):
    def f(src, dst, **k):
        fn = REAL[name]
        if k or not D.on:
            return fn(src, dst, **k)
        a, b = mine(src, name), mine(dst, name)
        if a is False or b is False:
            return None
        if a or b:
            point("%s %s" % (name, os.path.basename(os.fspath(dst))))
        s, d = os.path.realpath(src), os.path.realpath(dst)
        fn(src, dst)
        moved(s, d)

    f.__name__ = name
    return f


def _remove(name):
    def f(path, *a, **k):
        fn = REAL[name]
        if a or k.get("dir_fd") is not None or not D.on or D.quiet:
            return fn(path, *a, **k)
        m = mine(path, name)
        if m is False:
            return None
        if m:
            point("%s %s" % (name, os.path.basename(os.fspath(path))))
        p = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(path))), os.path.basename(path))
        fn(path, **k)
        if m:
            D.removed.append(p)
        D.sizes.pop(p, None)

    f.__name__ = name
    return f


def _rmtree(path, *a, **k):
    if not D.on:
        return REAL["rmtree"](path, *a, **k)
    m = mine(path, "rmtree")
    if m is False:
        return None
    if m:
        point("rmtree %s" % os.path.basename(os.fspath(path)))
    p = os.path.realpath(path)
    D.quiet += 1
    try:
        if m:
            # one file of it is gone before the rest
            for top, _, files in os.walk(p):
                if files:
                    REAL["unlink"](os.path.join(top, sorted(files)[0]))
                    point("rmtree, the rest")
                    break
        r = REAL["rmtree"](path, *a, **k)
    finally:
        D.quiet -= 1
    if m:
        D.removed.append(p)
    for q in list(D.sizes):
        if q.startswith(p + os.sep):
            del D.sizes[q]
    return r


D.quiet = 0


# ------------------------------------------------------------------- sqlite
class Cur(sqlite3.Cursor):
    def _row(self, r):
        if r is None or not D.sym:
            return r
        from . import hooks

        vals = [hooks.untoken(v) if type(v) is str else v for v in tuple(r)]
        if not any(hooks.is_sym(v) or type(v).__name__.startswith("Sym") for v in vals):
            return r
        if isinstance(r, sqlite3.Row):
            return SymRow(r.keys(), vals)
        return tuple(vals)

    def fetchone(self):
        return self._row(super().fetchone())

    def fetchall(self):
        return [self._row(r) for r in super().fetchall()]

    def fetchmany(self, *a):
        return [self._row(r) for r in super().fetchmany(*a)]

    def __next__(self):
        return self._row(super().__next__())

    def execute(self, sql, params=()):
        check(self.connection, sql)
        r = super().execute(prepare(sql), conv(params))
        raise_pending()
        return r

    def executemany(self, sql, params):
        check(self.connection, sql)
        return super().executemany(prepare(sql), [conv(p) for p in params])


class SymRow:
    """A row with symbolic values."""

    def __init__(self, keys, vals):
        self._k, self._v = list(keys), vals

    def keys(self):
        return list(self._k)

    def __getitem__(self, k):
        if isinstance(k, str):
            low = [x.lower() for x in self._k]
            if k.lower() not in low:
                raise IndexError("No item with that key")
            return self._v[low.index(k.lower())]
        return self._v[k]

    def __iter__(self):
        return iter(self._v)

    def __len__(self):
        return len(self._v)


def check(conn, sql):
    if D.on and D.dead:
        raise Crash()


def raise_pending():
    if D.pending is not None:
        e, D.pending = D.pending, None
        raise e


def conv(params):
    if not D.sym:
        return params
    from . import hooks

    def c(v):
        return hooks.token(v) if hooks.is_sym(v) or type(v).__name__.startswith("Sym") else v

    if isinstance(params, dict):
        return {k: c(v) for k, v in params.items()}
    return tuple(c(v) for v in params)


def prepare(sql):
    """In the symbolic runs sizes are tokens: only sums, copies and orders of them are understood."""
    if not D.sym:
        return sql
    from .core import Leak

    s = re.sub(r"\s+", " ", sql)
    if s.strip().upper().startswith("CREATE TABLE"):
        return sql
    rest = re.sub(r"SET (.*?)( WHERE |$)", lambda m: "SET " + re.sub(r"\bsize ?= ?\?", "", m.group(1)) + m.group(2), s, flags=re.I)
    o = re.search(r"ORDER BY (.*)$", rest, re.I)
    if o and re.search(r"\bsize\b", o.group(1), re.I):
        i = re.search(r"ORDER BY ", s, re.I).end()
        sql = s[:i] + re.sub(r"\bsize\b", "size COLLATE symx", s[i:], flags=re.I)
        rest = rest[: o.start()]
    if re.search(r"\bsize\b ?([<>=!*/+-]|BETWEEN|IN\b)|[<>=*/+-] ?size\b|\b(MAX|MIN|AVG) ?\( ?size\b", rest, re.I):
        raise Leak("sql arithmetic on symbolic sizes: %s" % s)
    return sql


class Total:
    def __init__(self):
        self.acc = None

    def step(self, v):
        from . import hooks

        if v is None:
            return
        v = hooks.untoken(v)
        self.acc = v if self.acc is None else self.acc + v

    def finalize(self):
        from . import hooks

        return hooks.token(self.acc) if hooks.is_sym(self.acc) else self.acc


def collate(a, b):
    from . import hooks

    try:
        x, y = hooks.untoken(a), hooks.untoken(b)
        return -1 if x < y else (1 if x > y else 0)
    except BaseException as e:
        D.pending = e
        return 0


class Conn(sqlite3.Connection):
    def cursor(self, factory=Cur):
        return super().cursor(factory)

    def execute(self, sql, params=()):
        return self.cursor().execute(sql, params)

    def executemany(self, sql, params):
        return self.cursor().executemany(sql, params)

    def commit(self):
        if self.in_transaction:
            point("commit")
        elif D.on and D.dead:
            raise Crash()
        return super().commit()

    def __exit__(self, t, v, tb):
        if D.on and D.dead:
            raise Crash()
        if t is None:
            self.commit()
            return False
        return super().__exit__(t, v, tb)


def connect(database, *a, **k):
    k.pop("factory", None)
    k["check_same_thread"] = False
    c = REAL["connect"](database, *a, factory=Conn, **k)
    if D.sym:
        c.create_aggregate("sum", 1, Total)
        c.create_aggregate("total", 1, Total)
        c.create_collation("symx", collate)
    if D.on:
        if D.dead:
            close(c)
            raise Crash()
        D.conns.append(c)
    return c


# ---------------------------------------------------------------- processes
def kill():
    """The process is gone: its threads, connections and modules."""
    from . import sched
    from .ctx import purge_modules

    D.dead = True
    sched.S.reset()
    for c in D.conns:
        close(c)
    D.conns = []
    purge_modules()
    D.dead = False
    D.at = None


def install(sym):
    D.sym = sym
    REAL.update(
        rename=os.rename,
        replace=os.replace,
        unlink=os.unlink,
        remove=os.remove,
        rmtree=shutil.rmtree,
        connect=sqlite3.connect,
        getsize=os.path.getsize,
        stat=os.stat,
        lstat=os.lstat,
    )
    os.rename = _rename("rename")
    os.replace = _rename("replace")
    os.unlink = _remove("unlink")
    os.remove = _remove("remove")
    shutil.rmtree = _rmtree
    sqlite3.connect = connect
    if sym:
        from . import hooks

        def getsize(path):
            p = os.path.realpath(path)
            if p in D.sizes and os.path.exists(p):
                return D.sizes[p]
            return REAL["getsize"](path)

        class St:
            def __init__(self, st, size, mtime):
                self._st = st
                if size is not None:
                    self.st_size = size
                if mtime is not None:
                    self.st_mtime = mtime

            def __getattr__(self, n):
                return getattr(self._st, n)

        def known(st, path, follow=True):
            p = None
            if isinstance(path, (str, os.PathLike)) and (follow or not os.path.islink(path)):
                p = os.path.realpath(path)
            return St(st, D.sizes.get(p), D.mtimes.get(p)) if p in D.sizes or p in D.mtimes else st

        def stat(path, **k):
            return known(REAL["stat"](path, **k), path, k.get("follow_symlinks", True))

        hooks.override(os.path.getsize, getsize)
        hooks.override(os.stat, stat)

        def now():
            if not D.on:
                return time.time()
            D.now += 1 / 64  # the same times on the same path
            return D.now

        hooks.override(time.time, now)
        hooks.override(os.lstat, lambda path, **k: known(REAL["lstat"](path, **k), path, False))
        hooks.override(os.path.getmtime, lambda path: stat(path).st_mtime)
        hooks.override_method(os.DirEntry, "stat", lambda self, **k: known(self.stat(**k), self.path, k.get("follow_symlinks", True)), always=True)
        import pathlib

        hooks.override_func(pathlib.Path.stat, lambda self, **k: stat(self, **k))
        hooks.override_func(pathlib.Path.lstat, lambda self: known(REAL["lstat"](self), self, False))
