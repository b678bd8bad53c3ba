"""C27: the in-memory cache is correct under concurrent requests."""
import os

from symx.ctx import mod
from symx.sched import Deadlock

from . import _mem as M
from ._threads import Race

TECHNIQUE = "symbolic execution of the instrumented source + z3 with symbolic preemption points (every statement of the in-memory cache, the inventory database, the backends and the configuration) and symbolic matrix sizes and limit"
LEVEL_NOTE = "Complete for all schedules of two threads with one (thorough: two) preemptions within bounds; trusts z3, the scheduler and the instrumentation (schedules replayed on the plain package)."
BOUNDS = (
    "two threads of 1-2 operations each: requests of 2 matrices with symbolic sizes (20..728 bytes) and weights, clearing, information, changes of the limit and the policy; "
    "policies lru, largest, unlimited and off, symbolic limit; one preemption at any statement of memcache.py, db.py, precomputed.py, backends/__init__.py, array/regrid.py, config.py, and two within the cache"
)
OUTSIDE = "more threads or preemptions, preemption within a statement, the numerical product itself (C code that holds no shared state)"
ASSUMPTIONS = ["a statement of these files is not interrupted half-way unless it calls into one of them"]
REQUIRED_UNION = ["answer", "undisturbed", "usage", "limit", "count", "ends", "info", "once", "usable"]
SCHED = True
FILES = ["utils/memcache.py", "backends/db.py", "backends/precomputed.py", "backends/__init__.py", "array/regrid.py", "utils/config.py"]


def race(cx):
    import numpy as np

    plan = cx.p("plan")
    pol = cx.p("policy")
    w = M.World(cx, 3)
    ws = [cx.float("w%d" % i, -1000, 1000) for i in range(3)]
    for i in range(3):
        cx.matrix(os.path.join(w.dir, "mir_16_linear", "n%d.npz" % i), [[ws[i]]], (1, 1), nnz=w.nnz[i])
    kw = {"policy": pol}
    limit = None
    if pol in ("lru", "largest"):
        limit = cx.int("limit", 1, 2000) if cx.p("limit") else 10**6
        if cx.p("limit") == "one":  # fits, but not two
            cx.assume(cx.and_(*[s <= limit for s in w.size], w.size[0] + w.size[1] > limit, w.size[0] + w.size[2] > limit, w.size[1] + w.size[2] > limit))
        elif cx.p("limit") == "first":  # only the first fits, alone
            cx.assume(cx.and_(w.size[0] <= limit, w.size[1] > limit, w.size[2] > limit))
        kw["size"] = limit
    M.configure(**kw)

    def ask(i):
        r, _ = mod("array").regrid(np.array([1.0]), M.grid(i), M.OUT, interpolation="linear", backend="precomputed", inventory=w.dir)
        return r.ravel()[0]

    # everything is imported, and the cache is empty again
    if cx.p("warm", True):
        ask(2)
    else:
        mod("backends.db"), mod("backends.precomputed"), mod("utils.memcache"), mod("array")
    M.clear()
    infos, answers = [], []
    state = {"policy": pol, "limit": limit}

    def do(t, op):
        if op[0] == "r":
            answers.append((int(op[1]), ask(int(op[1]))))
        elif op == "clear":
            M.clear()
        elif op == "info":
            infos.append(M.info())
        elif op == "limit":
            state["limit"] = cx.int("limit2", 1, 2000)
            cx.assume(cx.and_(*[s <= state["limit"] for s in w.size], sum(w.size[:2]) > state["limit"]))
            M.configure(size=state["limit"])
        else:
            state["policy"] = op
            M.configure(policy=op)

    def thread(t):
        def f():
            for op in plan[t]:
                do(t, op)
            return "done"

        return f

    r = Race(cx, cx.p("files", FILES), [thread(t) for t in range(len(plan))], cx.p("switches", 1), part=cx.p("part", (0, 1)))
    try:
        res = r.run()
    except Deadlock as e:
        cx.fail("ends", [plan, r.hist, str(e)])
        return
    cx.cover("ends")
    for v, e in res:
        cx.check(e is None and v == "done", "undisturbed", [plan, r.hist, repr(e)])
    ops = [op for p in plan for op in p]
    asks = [op for op in ops if op[0] == "r"]
    for i, a in answers:
        cx.check(a == ws[i], "answer", [plan, r.hist, i, a])

    def sums(k):
        """the sizes of the sets of k matrices"""
        return [[0], [w.size[0], w.size[1], w.size[2]], [w.size[0] + w.size[1], w.size[0] + w.size[2], w.size[1] + w.size[2]], [sum(w.size)]][k]

    def sound(i, lim, label):
        cx.check(cx.or_(*[i.currsize == s for s in sums(i.count)]), label, [plan, r.hist, list(i)])
        if i.policy in ("lru", "largest") and lim is not None:
            cx.check(i.currsize <= lim, "limit", [plan, r.hist, list(i), lim])

    for i in infos:
        sound(i, i.maxsize if "limit" not in ops else None, "info")
    end = M.info()
    cx.check(end.policy == state["policy"], "usable", list(end))
    sound(end, state["limit"], "usage")
    if state["policy"] == "off":
        cx.check(end.count == 0, "usage", list(end))
    if "clear" not in ops and "off" not in ops and pol != "off":
        cx.check(end.hits + end.misses == len(asks), "count", [plan, r.hist, list(end)])
        if limit == 10**6 or pol == "unlimited":
            n = len(set(asks))
            if "limit" not in ops and not set(ops) & {"lru", "largest"}:
                cx.check(end.count == n and end.misses == n, "once", [plan, r.hist, list(end)])
    # and it goes on working
    for i in (0,) if limit is not None and cx.p("limit") else (0, 1, 0):
        cx.check(ask(i) == ws[i], "usable", [plan, r.hist, i])
    sound(M.info(), state["limit"], "usage")
    M.clear()
    cx.check(M.info().count == 0 and M.info().currsize == 0, "usable")
    cx.sample(plan=plan, hist=r.hist)


HARNESS = {"race": race}
CACHE = ["utils/memcache.py"]


def jobs(tier):
    q = tier == "quick"
    out = []

    def job(plan, policy, parts=1, **kw):
        for i in range(parts):
            out.append({"h": "race", "params": {"plan": plan, "policy": policy, "part": (i, parts), **kw}})

    big = [
        ([["r0"], ["r0"]], "lru"),
        ([["r0"], ["r1"]], "unlimited"),
        ([["r0"], ["r0"]], "largest"),
        ([["r0"], ["clear"]], "unlimited"),
        ([["r0"], ["r1"]], "off"),
        ([["r0"], ["off"]], "lru"),
        ([["r0"], ["unlimited"]], "off"),
        ([["r0", "info"], ["r1", "clear", "info"]], "largest"),
    ]
    for plan, pol in big:
        job(plan, pol, parts=2)
        if not q:
            job(plan, pol, files=CACHE, switches=2, parts=8)
            job(plan, pol, switches=2, parts=32)
    job([["r0"], ["r0"]], "lru", files=CACHE, switches=2, parts=6)
    for pol in ("lru", "largest"):
        for limit in ("one", "first"):
            if not q:
                job([["r0"], ["r1"]], pol, limit=limit)
            job([["r0", "info"], ["r1", "info"]], pol, limit=limit, files=CACHE)
            if not q:
                job([["r0"], ["r1"]], pol, limit=limit, files=CACHE, switches=2, parts=16)
        job([["r0"], ["limit"]], pol, files=CACHE)
        if not q or pol == "lru":
            job([["limit"], ["r1", "r0"]], pol, files=CACHE, parts=3)
    # nothing has been asked before
    job([["r0"], ["r0"]], "lru", warm=False, parts=2)
    if not q:
        job([["r0"], ["r1"]], "largest", warm=False, parts=2)
    return out
