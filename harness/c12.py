"""C12: a cached file is published complete or not at all."""
import os

from ._disk import Crash, D, Fault, World

TECHNIQUE = (
    "symbolic execution of the instrumented source + z3 with a symbolic crash point over every durable effect and symbolic sizes, "
    "limits and faults, on the real sqlite and file system"
)
LEVEL_NOTE = (
    "Complete for every crash point, creation failure, size and limit in histories of the stated length; the durable effects are file writes of "
    "the creator (two parts), renames, deletions and database commits, taken to be atomic and ordered; trusts z3, the instrumentation and sqlite's "
    "atomic commit (paths replayed on the plain package)."
)
BOUNDS = "one crash or one failure (before, half-way through, after writing) in a request of a history of 3-4 requests of 2 items, with and without forced recreation and with or without a size limit (symbolic), followed by 2-3 requests of a new process"
OUTSIDE = "power loss (effects reordered or torn by the file system); more than one crash; processes that share the directory at the same time (C28)"
ASSUMPTIONS = ["a process death releases its file locks and rolls back its open sqlite transactions"]
REQUIRED_UNION = ["complete", "not-again", "propagates", "again"]
SCHED = True
DISK = True


def item(i):
    return ("own", {"item": i})


def request(w, i, v, **kw):
    """-> what the file holds; v: the version of the content were it created now"""
    p = w.get(*item(i), "%d%s" % (i, "abcdefgh"[v]), w.size[i] if w.kind == "file" else (w.size[i], w.size[i]), kind=w.kind, **kw)
    return p, w.content(p, w.kind)


def make(cx):
    limit = cx.int("limit", 5, 300) if cx.p("limit") else None
    w = World(cx, maximum_cache_size=None)
    w.conf["maximum-cache-size"] = limit
    w.kind = cx.p("kind", "file")
    w.size = [cx.int("size%d" % i, 4, 200) for i in range(2)]
    w.limit = limit
    w.start()
    return w


def crash(cx):
    """the process dies at any point of the history; a new one asks again"""
    w = make(cx)
    at = D.at = cx.int("at", 1, 60)
    published = {}
    hist = []
    died = None
    ops = cx.p("ops")
    try:
        for n, op in enumerate(ops):
            i, force = int(op[0]), op[1:] == "f"
            died = (i, force)
            p, c = request(w, i, n, force=True if force else None)
            cx.check(c is not None and c[0] == str(i), "complete", [ops, hist, c])
            published[i] = (p, c)
            hist.append((i, c))
        died = None
        w.sync()
    except Crash as e:
        hist.append(str(e))
    w.crash()
    w.sync()
    for n, i in enumerate((1, 0, 1)):
        before = len(w.made)
        p, c = request(w, i, 5 + n)
        cx.check(c is not None and c[0] == str(i), "complete", [ops, hist, i, c])
        made = w.made[before:]
        cx.check(len(made) <= 1, "complete", [ops, hist, made])
        if made:
            cx.check(c == made[0], "complete", [ops, hist, i, c, made])
            if n == 2 and w.limit is None:
                cx.fail("not-again", [ops, hist, i])
        else:
            # the same content as was created last, and completely, before
            tags = [t for t in w.made if t[0] == str(i)]
            cx.check(c in tags, "complete", [ops, hist, c, tags])
        if n < 2 and w.limit is None and i in published and (died is None or died[0] != i or not died[1]):
            # it was there, nothing removed it, and nothing was recreating it
            cx.check(not made, "not-again", [ops, hist, i])
            cx.check(c == published[i][1], "not-again", [ops, hist, i])
    cx.check(not D.escaped, "complete", D.escaped)
    cx.sample(hist=hist, log=D.log)


def fault(cx):
    """creations fail in any way at any request; the error is passed on and the cache stays usable"""
    w = make(cx)
    held = {}
    hist = []
    for n in range(cx.p("L")):
        i = cx.choice("item%d" % n, [0, 1])
        force = bool(held) and cx.choice("force%d" % n, [False, True])
        before = len(w.made)
        will = cx.choice("fail%d" % n, [None, "start", "half", "done"]) if n < cx.p("L") - 1 else None
        try:
            p, c = request(w, i, n, force=True if force else None, fail=will)
            e = None
        except Fault as x:
            e = x
        hist.append((i, force, will, repr(e)))
        made = w.made[before:]
        cx.check(len(made) <= 1, "again", hist)
        if made and will:
            cx.check(e is not None and str(e) == made[0], "propagates", hist)
            held.pop(i, None)
            continue
        cx.check(e is None, "propagates", hist)
        cx.check(c is not None and c[0] == str(i), "complete", [hist, c])
        if made:
            cx.check(c == made[0], "complete", [hist, c])
            if w.limit is None:
                cx.check(i not in held or force, "not-again", hist)
        else:
            cx.check(held.get(i) == c, "complete", [hist, c])
            cx.check(not force, "again", hist)
        held[i] = c
        w.sync()
    cx.sample(hist=hist)


HARNESS = {"crash": crash, "fault": fault}


def jobs(tier):
    q = tier == "quick"
    out = []
    for ops in [["0", "1", "0"], ["0", "0f"], ["0", "1", "1f"]] + ([] if q else [["0f", "1", "0", "0f"], ["0", "1", "1f", "0f", "0"]]):
        for limit in (False, True):
            out.append({"h": "crash", "params": {"ops": ops, "limit": limit}})
    out.append({"h": "crash", "params": {"ops": ["0", "1", "0f"], "limit": False, "kind": "dir"}})
    for f in (None, "start", "half", "done"):
        out.append({"h": "fault", "params": {"L": 3 if q else 4, "limit": False, "fix": {"fail0": f}}})
        if f:
            out.append({"h": "fault", "params": {"L": 3, "limit": True, "fix": {"fail0": f}}})
        else:
            for g in (None, "start", "half", "done"):
                out.append({"h": "fault", "params": {"L": 3, "limit": True, "fix": {"fail0": None, "fail1": g}}})
    out.append({"h": "fault", "params": {"L": 3, "limit": False, "kind": "dir"}})
    return out
