"""C16: disk cache bookkeeping agrees with the files."""
import json
import os

from ._disk import Crash, D, Fault, World

TECHNIQUE = "symbolic execution of the instrumented source + z3 (all histories; symbolic sizes and crash point), on the real sqlite and file system"
LEVEL_NOTE = (
    "Complete for every size over all histories of the stated length, with one process death at every durable effect; sums of sizes in SQL are "
    "evaluated symbolically, the rest of sqlite is real; trusts z3 and the instrumentation (paths replayed on the plain package)."
)
BOUNDS = (
    "histories of 3 (thorough 4) operations: requests of 2 items (plain, forced, failing), a file removed by somebody else, purge of one item or of all, a "
    "process death at any point of a request; files and directories, sizes 4..200 symbolic"
)
OUTSIDE = "longer histories; several processes at the same time (C28); what size() says of a file removed by somebody else before it is asked for again"
ASSUMPTIONS = ["a process death rolls back open sqlite transactions"]
REQUIRED_UNION = ["size", "summary", "entries", "fields", "accesses", "recreated", "order"]
SCHED = True
DISK = True

OWNERS = ["own", "Other"]


def args_of(i):
    return {"item": i, "list": [1, "x", None], "b": {"c": 2.5}} if i == 0 else ["u", {"item": i}]


class Book:
    def __init__(self):
        self.row = {}  # i -> number of requests since the entry was made
        self.size = {}
        self.data = {}
        self.path = {}
        self.lost = set()
        self.order = []  # by last request


def total(size, kind):
    return size if kind == "file" else size[0] + size[1]


def verify(cx, w, b, hist, counts=True):
    tot = 0
    for i in b.size:
        tot = tot + total(b.size[i], w.kind)
    n = len(b.size)
    if not b.lost:
        cx.check(w.cache.size() == tot, "size", [hist, tot])
        got, e = cx.try_(w.cache.summary_dump_database)
        cx.check(e is None, "summary", [hist, e])
        cx.check(got[0] == n, "summary", [hist, got, n])
        cx.check(got[1] == tot, "summary", [hist, got, tot])
        got = w.cache.summary_dump_database(matcher=lambda d: d["owner"] == OWNERS[0])
        cx.check(cx.and_(got[0] == (1 if 0 in b.size else 0), got[1] == (total(b.size[0], w.kind) if 0 in b.size else 0)), "summary", [hist, got])
    es = w.cache.entries()
    mine = {}
    for e in es:
        mine.setdefault(e["path"], []).append(e)
    want = {b.path[i]: i for i in b.size if i not in b.lost}
    cx.check(sorted(mine) == sorted(want), "entries", [hist, sorted(mine), sorted(want)])
    cx.check(all(len(v) == 1 for v in mine.values()), "entries", hist)
    for p, i in want.items():
        e = mine[p][0]
        cx.check(e["owner"] == OWNERS[i] and e["args"] == args_of(i), "fields", [hist, e["owner"], e["args"]])
        cx.check(e["size"] == total(b.size[i], w.kind), "fields", [hist, e["size"]])
        cx.check(e["type"] == ("file" if w.kind == "file" else "directory"), "fields", [hist, e["type"]])
        if i in b.data:
            cx.check(e["owner_data"] == b.data[i], "fields", [hist, e["owner_data"], b.data[i]])
        if counts:
            cx.check(e["accesses"] == b.row[i], "accesses", [hist, e["accesses"], b.row])
    last = [mine[b.path[i]][0]["last_access"] for i in b.order if b.path.get(i) in mine]
    cx.check(all(x < y for x, y in zip(last, last[1:])), "order", [hist, last])


def touch(b, i):
    if i in b.order:
        b.order.remove(i)
    b.order.append(i)


def request(cx, w, b, i, hist, sizes, force=False, fail=None):
    n = len(hist)
    tag = "%d%s" % (i, "abcdefgh"[n])
    data = {"n": n, "who": [tag]}
    before = len(w.made)
    have = i in b.size and i not in b.lost
    size = sizes if w.kind == "file" else (sizes, sizes)
    try:
        p = w.get(OWNERS[i], args_of(i), tag, size, fail=fail, kind=w.kind, data=data, force=True if force else None)
        e = None
    except Fault as x:
        e = x
    made = w.made[before:]
    touch(b, i)
    if have and not force:
        cx.check(not made and e is None, "recreated", hist)
        b.row[i] += 1
        return
    cx.check(len(made) == 1, "recreated", [hist, made])
    if have:
        b.row[i] = 1
    else:
        b.row[i] = b.row.get(i, 0) + 1
    b.size.pop(i, None)
    b.data.pop(i, None)
    if e is not None:
        cx.check(fail is not None, "recreated", hist)
        if i in b.lost:
            b.broken = True
        return
    b.lost.discard(i)
    b.path[i] = p
    b.size[i] = size
    b.data[i] = data
    cx.check(w.content(p, w.kind) == tag or not os.path.exists(p) and cx.p("limit"), "recreated", hist)


def history(cx):
    w = World(cx, maximum_cache_size=cx.int("limit", 5, 300) if cx.p("limit") else None)
    w.kind = cx.p("kind", "file")
    w.start()
    b = Book()
    hist = []
    for step in range(cx.p("L")):
        ops = ["get", "fail"]
        if b.size:
            ops += ["force"]
            if not b.lost:
                ops += ["purge", "purge-all"]
        if [i for i in b.size if i not in b.lost]:
            ops.append("lost")
        op = cx.choice("op%d" % step, ops)
        if op in ("get", "fail", "force"):
            i = cx.choice("item%d" % step, [0, 1] if b.row else [0])
            if op == "force" and i not in b.size:
                cx.stop()
            if op == "fail" and i in b.size:
                cx.stop()  # it is not created
            size = cx.int("size%d" % step, 4, 200)
            hist.append([op, i])
            request(cx, w, b, i, hist, size, force=op == "force", fail="half" if op == "fail" else None)
        elif op == "lost":
            live = [i for i in sorted(b.size) if i not in b.lost]
            i = cx.choice("lost%d" % step, live)
            hist.append([op, i])
            if w.kind == "dir":
                import shutil

                shutil.rmtree(b.path[i])
            else:
                os.unlink(b.path[i])
            b.lost.add(i)
        else:
            i = cx.choice("purge%d" % step, sorted(b.size)) if op == "purge" else None
            hist.append([op, i])
            if op == "purge":
                w.cache.purge(matcher=lambda d: d["owner"] == OWNERS[i])
            else:
                w.cache.purge()
            for j in [i] if op == "purge" else list(b.row):
                if j in b.size:
                    cx.check(not os.path.exists(b.path[j]), "entries", hist)
                for x in (b.row, b.size, b.data):
                    x.pop(j, None)
        if cx.p("limit"):
            w.sync()
            for i in [i for i in b.size if i not in b.lost and not os.path.exists(b.path[i])]:
                # evicted
                for x in (b.row, b.size, b.data):
                    x.pop(i, None)
        verify(cx, w, b, hist)
    cx.sample(hist=hist)


def death(cx):
    """the process dies in a request; the books of the next one describe what is there"""
    w = World(cx)
    w.kind = cx.p("kind", "file")
    w.start()
    b = Book()
    sizes = [cx.int("size%d" % i, 4, 200) for i in range(3)]
    hist = []
    i = 1
    try:
        for n, op in enumerate(cx.p("ops")):
            i = int(op[0])
            if n == len(cx.p("ops")) - 1:
                D.at = D.n + cx.int("at", 1, 30)
            hist.append(op)
            request(cx, w, b, i, hist, sizes[n], force=op[1:] == "f")
        D.at = None
        cx.stop()
    except Crash as e:
        hist.append(str(e))
    w.crash()
    hist.append("restart")
    n = len(cx.p("ops")) - 1
    # what is there decides; it is complete (C12)
    path = b.path.get(i)
    if path is None:
        others = set(b.path.values())
        found = [os.path.join(w.dir, x) for x in w.files() if x.startswith(OWNERS[i].lower()) and x.endswith(".cache")]
        found = [x for x in found if x not in others]
        path = found[0] if found else None
    c = w.content(path, w.kind) if path else None
    if c is None:
        if i in b.size:
            # the file is gone, perhaps the entry is still there: as if somebody else had removed the file
            b.lost.add(i)
        else:
            b.row.pop(i, None)
            b.data.pop(i, None)
            if i in b.order:
                b.order.remove(i)
    else:
        s = sizes["abc".index(c[1]) - 1]
        b.path[i] = path
        b.size[i] = s if w.kind == "file" else (s, s)
        b.data.pop(i, None)
        touch(b, i)
    verify(cx, w, b, hist, counts=False)
    # and it goes on
    request(cx, w, b, 1 - i, hist, 50)
    b.row[1 - i] = None
    verify(cx, w, b, hist, counts=False)
    before = len(w.made)
    p = w.get(OWNERS[i], args_of(i), "%dz" % i, 60 if w.kind == "file" else (60, 60), kind=w.kind)
    touch(b, i)
    b.lost.discard(i)
    if len(w.made) > before:
        b.size[i], b.path[i] = (60 if w.kind == "file" else (60, 60)), p
        b.data.pop(i, None)
    verify(cx, w, b, hist, counts=False)


HARNESS = {"history": history, "death": death}


def jobs(tier):
    q = tier == "quick"
    out = [
        {"h": "history", "params": {"L": 4 if q else 5}},
        {"h": "history", "params": {"L": 3 if q else 4, "kind": "dir"}},
        {"h": "history", "params": {"L": 3 if q else 4, "limit": True}},
    ]
    for ops in (["0"], ["0", "1"], ["0", "0f"], ["0", "0"]):
        for kind in ("file", "dir"):
            out.append({"h": "death", "params": {"ops": ops, "kind": kind}})
    return out
