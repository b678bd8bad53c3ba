"""C08: the in-memory cache never changes a result."""
from symx.ctx import mod

from . import _mem as M
from ._inv import write_inventory

TECHNIQUE = "symbolic execution of the instrumented source + z3 (all request histories; symbolic grids, weights, sizes and limits)"
LEVEL_NOTE = (
    "Complete over all request histories of the stated length and all symbolic grid numbers, weights, sizes and limits; trusts z3, the "
    "instrumentation and sha256 being collision free (paths replayed on real files)."
)
BOUNDS = (
    "two inventories of 2-3 entries over the same grids with different symbolic weights, up to 4 (thorough 5) requests chosen among "
    "inventory x grid x method (aliases included) and failing requests, every policy; requests whose grids have symbolic numbers, "
    "areas or orderings (2 entries, 2-3 requests)"
)
OUTSIDE = "remote inventories; inventories modified while the process runs"
ASSUMPTIONS = ["increments 1..1.1: comparisons in exact reals", "sha256 is injective on the cache keys"]
REQUIRED_UNION = ["own-inventory", "own-entry", "not-found", "same-as-off"]

OUT = {"grid": [10, 10]}


def entry(name, gin, w, method="linear", gout=None, **kw):
    gin = dict(gin)
    gin.setdefault("shape", [1])
    gout = dict(gout or OUT)
    gout.setdefault("shape", [1, 1])
    return dict(name=name, input=gin, output=gout, method=method, weights=[[w]], wshape=(1, 1), memory=20, **kw)


def ask(inv, gin, method="linear", gout=None, old=False):
    import numpy as np

    gout = gout or dict(OUT)
    if old:
        return mod().interpolate(np.array([1.0]), in_grid=gin, out_grid=gout, method=method, matrix_source=inv).ravel()[0]
    r, _ = mod("array").regrid(np.array([1.0]), gin, gout, interpolation=method, backend="precomputed", inventory=inv)
    return r.ravel()[0]


def policy(cx, limit=None):
    pol = cx.p("policy")
    if pol in ("lru", "largest"):
        M.configure(policy=pol, size=limit if limit is not None else cx.p("limit", 10**6))
    else:
        M.configure(policy=pol)
    return pol


def inventories(cx):
    """requests alternate between inventories, grids, methods"""
    w, dirs = {}, []
    two = cx.p("methods")
    for a in range(2):
        es = []
        for g in range(2):
            for m in ["linear", "nearest-neighbour"] if two else ["linear"]:
                w[a, g, m] = cx.float("w.%d.%d.%s" % (a, g, m[0]), -1000, 1000)
                es.append(entry("n%d%s" % (g, m[0]), M.grid(g), w[a, g, m], method=m, nnz=cx.int("nnz%d%d%s" % (a, g, m[0]), 1, 9)))
        dirs.append(write_inventory(cx, es))
    limit = cx.int("limit", 20, 99) if cx.p("limit") == "sym" else None
    policy(cx, limit)
    hist = []
    for step in range(cx.p("L")):
        a = 0 if step == 0 else cx.choice("inv%d" % step, [0, 1])
        g = 0 if step == 0 else cx.choice("grid%d" % step, [0, 1])
        m = cx.choice("m%d" % step, ["linear", "nearest-neighbour", "nn"]) if two else "linear"
        got = ask(dirs[a], M.grid(g), m, old=cx.p("old") and step % 2)
        hist.append((a, g, m))
        m = "nearest-neighbour" if m == "nn" else m
        cx.check(got == w[a, g, m], "own-inventory", [hist, got])
    cx.sample(hist=hist)


def failing(cx):
    """a request that cannot be answered stays unanswered, and disturbs nothing"""
    w0, w1 = cx.float("w0", -1000, 1000), cx.float("w1", -1000, 1000)
    A = write_inventory(cx, [entry("a", M.grid(0), w0)])
    B = write_inventory(cx, [entry("a", M.grid(0), w1), entry("b", M.grid(1), w1)])
    policy(cx)
    hist = []
    for step in range(cx.p("L")):
        k = cx.choice("k%d" % step, [0, 1, 2])
        hist.append(k)
        if k == 0:
            cx.check(ask(A, M.grid(0)) == w0, "own-inventory", hist)
        elif k == 1:
            r, e = cx.try_(ask, A, M.grid(1))
            cx.check(isinstance(e, ValueError), "not-found", [hist, r, e])
        else:
            cx.check(ask(B, M.grid(1)) == w1, "own-inventory", hist)


def fine(cx, t):
    """increments that may be as close as one likes"""
    return cx.float(t + ".k", 1, 1.1)


FORMS = {
    "number": lambda cx, t: {"grid": "O" + cx.str(t + ".n", 1, 1, lo=49, hi=57)},
    "family": lambda cx, t: {"grid": cx.choice(t + ".f", ["O", "N", "H"]) + cx.str(t + ".n", 1, 1, lo=49, hi=50)},
    "order": lambda cx, t: {"grid": "H" + cx.str(t + ".n", 1, 1, lo=49, hi=50), "order": cx.choice(t + ".o", ["ring", "nested"])},
    "increments": lambda cx, t: {"grid": [cx.int(t + ".dx", 1, 9), cx.int(t + ".dy", 1, 9)]},
    "fine": lambda cx, t: {"grid": [fine(cx, t)] * 2, "area": [50, 0, 0, 60]},
    "area": lambda cx, t: {"grid": [1, 1], "area": [cx.int(t + ".n", 1, 90), 0, 0, cx.int(t + ".e", 1, 350)]},
}


def keys(cx):
    """requests whose grids may be equal or differ in one key only: cached answer == answer without the cache"""
    form = FORMS[cx.p("form")]
    e0, e1 = form(cx, "e0"), form(cx, "e1")
    w0, w1 = cx.float("w0", -1000, 1000), cx.float("w1", -1000, 1000)
    role = cx.p("role", "input")
    if role == "input":
        inv = write_inventory(cx, [entry("a", e0, w0), entry("b", e1, w1)])
        do = lambda g: ask(inv, g)  # noqa: E731
    else:
        inv = write_inventory(cx, [entry("a", M.grid(0), w0, gout=e0), entry("b", M.grid(0), w1, gout=e1)])
        do = lambda g: ask(inv, M.grid(0), gout=g)  # noqa: E731
    reqs = [form(cx, "r0"), form(cx, "r1")]
    copies = lambda g: {k: (list(v) if isinstance(v, list) else v) for k, v in g.items()}  # noqa: E731
    policy(cx)
    got = [cx.try_(do, copies(r)) for r in reqs]
    got.append(cx.try_(do, copies(reqs[0])))
    M.configure(policy="off")
    want = [cx.try_(do, copies(r)) for r in reqs + [reqs[0]]]
    for (g, ge), (x, xe) in zip(got, want):
        if xe is not None:
            cx.check(type(ge) is type(xe), "same-as-off", [reqs, ge, xe])
        else:
            cx.check(ge is None and g == x, "same-as-off", [reqs, g, x, ge])
            cx.cover("own-entry")


HARNESS = {"inventories": inventories, "failing": failing, "keys": keys}


def jobs(tier):
    q = tier == "quick"
    out = []
    for pol in ("lru", "largest", "unlimited"):
        out.append({"h": "inventories", "params": {"policy": pol, "L": 4 if q else 5}})
        if pol != "unlimited":
            out.append({"h": "inventories", "params": {"policy": pol, "L": 3 if q else 4, "limit": "sym"}})
        out.append({"h": "failing", "params": {"policy": pol, "L": 3 if q else 4}})
    out.append({"h": "inventories", "params": {"policy": "largest", "L": 3 if q else 4, "methods": True}})
    out.append({"h": "inventories", "params": {"policy": "lru", "L": 3, "old": True}})
    out.append({"h": "inventories", "params": {"policy": "off", "L": 3}})
    for f in FORMS:
        for role in ("input", "output"):
            if q and (f, role) == ("increments", "output"):
                continue
            j = {"h": "keys", "params": {"policy": "lru" if role == "input" else "unlimited", "form": f, "role": role}}
            if f == "fine":
                j["fp"] = "real"
            out.append(j)
    out.sort(key=lambda j: j["params"].get("form") != "increments")  # the longest first
    return out
