"""C10: strict mode refuses only what cannot fit; non-strict mode always answers."""
from symx.ctx import mod

from . import _mem as M

TECHNIQUE = "symbolic execution of the instrumented source + z3 (symbolic sizes, estimates, limits; all histories)"
LEVEL_NOTE = (
    "Complete for every size, estimate and limit over all request histories of the stated length; trusts z3 and the instrumentation "
    "(paths replayed on real npz files)."
)
BOUNDS = (
    "histories of up to 3 (thorough 4) requests of 2-3 matrices under lru and largest, strict mode on or off; sizes 20..728, inventory "
    "estimates 0..1000 (equal to the size, or independent of it) and limits 100..999 bytes symbolic"
)
OUTSIDE = "longer histories"
ASSUMPTIONS = []
REQUIRED_UNION = ["refused", "fits-is-served", "answered", "untouched", "not-loaded"]


def strict(cx):
    """refused iff the estimate exceeds the limit; a refusal loads nothing and keeps what is cached"""
    n, L, pol = cx.p("n", 2), cx.p("L"), cx.p("policy")
    est = None if cx.p("est") == "exact" else [cx.int("est%d" % i, 0, 1000) for i in range(n)]
    w = M.World(cx, n, est=est)
    limit = cx.int("limit", 100, 999)
    M.configure(size=limit, policy=pol, strict=True)
    est = est or w.size
    used, held = [], {}
    for step in range(L):
        op = M.growth(cx, "op%d" % step, used, n)
        used.append(op)
        before = M.info()
        r, e = cx.try_(w.request, op, step + 1)
        f = M.info()
        if e is not None:
            cx.check(isinstance(e, ValueError), "refused", e)
            cx.check(est[op] > limit, "fits-is-served", [est[op], limit, used])
            cx.check(
                cx.and_(f.count == before.count, f.currsize == before.currsize, f.hits == before.hits), "untouched", [before, f, used]
            )
            # the weights file is not even read: it may be unreadable
        else:
            cx.check(r == step + 1 or r == held.get(op), "answered", [r, step + 1, held, used])
            if r == step + 1:
                cx.check(est[op] <= limit, "refused", [est[op], limit, used])
            held[op] = r
        cx.check(f.currsize <= limit, "untouched")
    cx.sample(used=used, limit=limit, sizes=w.size)


def notloaded(cx):
    """the weights of a refused request are not loaded: the refusal is the same when they are missing"""
    import os

    pol = cx.p("policy")
    w = M.World(cx, 2)
    limit = cx.int("limit", 100, 999)
    cx.assume(w.size[1] > limit)
    cx.assume(w.size[0] <= limit)
    M.configure(size=limit, policy=pol, strict=True)
    w.request(0, 1)
    w.write(1, 2)
    os.remove(os.path.join(w.dir, "mir_16_linear", "n1.npz"))
    import numpy as np

    r, e = cx.try_(
        mod("array").regrid, np.array([1.0]), M.grid(1), M.OUT, interpolation="linear", backend="precomputed", inventory=w.dir
    )
    cx.check(isinstance(e, ValueError), "not-loaded", e)
    cx.check(w.request(0, 3) == 1, "untouched")


def relaxed(cx):
    """strict mode off: every request is answered with its own weights"""
    n, L, pol = cx.p("n", 2), cx.p("L"), cx.p("policy")
    est = [cx.int("est%d" % i, 0, 1000) for i in range(n)] if cx.p("est") == "free" else None
    w = M.World(cx, n, est=est)
    limit = cx.int("limit", 100, 999)
    if cx.choice("how", ["explicit", "default"]) == "explicit":
        M.configure(size=limit, policy=pol, strict=False)
    else:
        M.configure(size=limit, policy=pol)
    used = []
    for step in range(L):
        op = M.growth(cx, "op%d" % step, used, n)
        used.append(op)
        r = w.request(op, 10 * (step + 1) + op)
        cx.check(r % 10 == op and r <= 10 * (step + 1) + op, "answered", [r, used])
        f = M.info()
        cx.check(f.currsize <= limit, "answered")
    # a matrix that fits and is asked for twice in a row is answered from memory
    cx.assume(w.size[0] <= limit)
    if est is not None:
        cx.assume(est[0] == w.size[0])
    a = w.request(0, 1000)
    b = w.request(0, 2000)
    cx.check(a == b, "fits-is-served", [a, b, used])


HARNESS = {"strict": strict, "notloaded": notloaded, "relaxed": relaxed}


def jobs(tier):
    q = tier == "quick"
    out = []
    for pol in ("lru", "largest"):
        out.append({"h": "strict", "params": {"policy": pol, "L": 3 if q else 4, "n": 3, "est": "exact"}})
        out.append({"h": "strict", "params": {"policy": pol, "L": 3, "n": 2 if q else 3, "est": "free"}})
        out.append({"h": "notloaded", "params": {"policy": pol}})
        out.append({"h": "relaxed", "params": {"policy": pol, "L": 3 if q else 4, "n": 2 if q else 3, "est": "free"}})
        out.append({"h": "relaxed", "params": {"policy": pol, "L": 3 if q else 4, "n": 3, "est": "exact"}})
    return out
