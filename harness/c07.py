"""C07: the in-memory cache stays within its budget and reports it truthfully."""
from symx.ctx import mod

from . import _mem as M

TECHNIQUE = "symbolic execution of the instrumented source + z3 (symbolic matrix sizes, estimates and limits; all histories)"
LEVEL_NOTE = (
    "Complete for every size, estimate and limit over all request histories of the stated length; trusts z3 and the "
    "instrumentation (paths replayed on real npz files)."
)
BOUNDS = (
    "histories of up to 4 (thorough 5) operations (request one of 3 matrices, clear) from an empty cache; sizes 20..728 bytes, "
    "inventory estimates 0..1000 or absent, limits 100..999 bytes, all symbolic; every policy"
)
OUTSIDE = "longer histories; matrices above 1 kB (the code does not distinguish scales)"
ASSUMPTIONS = []
REQUIRED_UNION = ["budget", "usage", "count", "counters", "off"]


def setup(cx, n):
    pol = cx.p("policy")
    limit = cx.int("limit", 100, 999)
    est = None
    kind = cx.p("est", "exact")
    if kind == "free":
        est = [cx.int("est%d" % i, 0, 1000) for i in range(n)]
    elif kind == "none":
        est = [None] * n
    w = M.World(cx, n, est=est)
    if pol in ("lru", "largest"):
        M.configure(size=limit, policy=pol, strict=False)
    else:
        M.configure(policy=pol)
    return w, pol, limit


def held(cx, w, used, pol):
    """which matrices are held: each is requested once more with ample room"""
    out = []
    before = M.info()
    if pol in ("lru", "largest"):
        M.configure(size=10**9)
        after = M.info()
        cx.check(cx.and_(after.currsize == before.currsize, after.count == before.count, after.maxsize == 10**9), "usage")
    for i in sorted(set(used)):
        old = w.stamp[i]
        if w.request(i, 1000 + i) != 1000 + i:
            out.append(i)
    return before, out


def budget(cx):
    """random histories; budget after each step, usage/count/counters at the end"""
    n = cx.p("n", 3)
    w, pol, limit = setup(cx, n)
    used, hits, lookups = [], 0, 0
    for step in range(cx.p("L")):
        op = M.growth(cx, "op%d" % step, used, n, ["clear"] if used and cx.p("clear", True) else [])
        if op == "clear":
            M.clear()
            hits = lookups = 0
        else:
            used.append(op)
            got = w.request(op, step + 1)
            lookups += 1
            hits += got != step + 1
        f = M.info()
        if pol in ("lru", "largest"):
            cx.check(cx.and_(f.currsize <= limit, f.maxsize == limit), "budget", [f.currsize, limit])
        if pol == "off":
            cx.check(cx.and_(f.currsize == 0, f.count == 0), "off", f)
            cx.check(hits == 0, "off")
        else:
            cx.check(cx.and_(f.hits == hits, f.misses == lookups - hits), "counters", [f, hits, lookups])
        cx.check(f.policy == pol, "counters")
    if pol != "off":
        f, hs = held(cx, w, used, pol)
        cx.check(f.currsize == sum((w.size[i] for i in hs), 0), "usage", [f.currsize, hs])
        cx.check(f.count == len(hs), "count", [f.count, hs])
    cx.sample(policy=pol, limit=limit, sizes=w.size, used=used)


def failing(cx):
    """a request that fails (no such entry / unreadable file) leaves usage truthful"""
    import os

    n = 2
    w, pol, limit = setup(cx, n)
    w.request(0, 1)
    kind = cx.choice("kind", ["missing-entry", "unreadable"])
    before = M.info()
    if kind == "missing-entry":
        r, e = cx.try_(w.request, 0, 2, grid={"grid": "O77"})
        cx.check(isinstance(e, ValueError), "counters", e)
    else:
        p = os.path.join(w.dir, "mir_16_linear", "n1.npz")
        w.write(1, 5)
        os.remove(p)
        import numpy as np

        r, e = cx.try_(
            mod("array").regrid, np.array([1.0]), M.grid(1), M.OUT, interpolation="linear", backend="precomputed", inventory=w.dir
        )
        cx.check(e is not None, "counters")
    f = M.info()
    cx.check(cx.and_(f.count <= before.count, f.currsize <= before.currsize), "usage")
    if pol in ("lru", "largest"):
        cx.check(f.currsize <= limit, "budget")
    f, hs = held(cx, w, [0, 1], pol)
    cx.check(cx.and_(f.currsize == sum((w.size[i] for i in hs), 0), f.count == len(hs)), "usage", [f, hs])


HARNESS = {"budget": budget, "failing": failing}


def jobs(tier):
    L = 4 if tier == "quick" else 5
    out = []
    for pol in ("lru", "largest"):
        for est in ("exact", "free", "none"):
            out.append({"h": "budget", "params": {"policy": pol, "L": L, "est": est, "n": 3 if est == "exact" or tier != "quick" else 2}})
        out.append({"h": "failing", "params": {"policy": pol, "est": "free"}})
    for pol in ("unlimited", "off"):
        out.append({"h": "budget", "params": {"policy": pol, "L": L}})
    return out
