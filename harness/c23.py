"""C23: an inventory written by the builder is read back as written."""
import json
import os

from symx.ctx import mod
from symx.hooks import b_ord

from . import c22

TECHNIQUE = "symbolic execution of the instrumented source + z3 (symbolic grids, weights and requests; the builder writes, the public API reads)"
LEVEL_NOTE = (
    "Complete for all grid parameters, weights and requests within the stated bounds, every pair of grid types listed, and both build orders; "
    "npz files and sha256 are modelled (paths replayed on the real ones)."
)
BOUNDS = (
    "inventories of 1-2 (thorough 3) entries; regular lat-lon grids with symbolic increments and corners, reduced Gaussian (O/N), HEALPix (ring/nested) and "
    "ORCA grids with a symbolic digit; method text, default grid-box-average and options as a dictionary; symbolic weights of a 2x2 or 1x2 matrix"
)
OUTSIDE = "several entries that differ in method options only; larger inventories and matrices; concurrent builders"
ASSUMPTIONS = ["sha256 is collision free", "struct, npz and CSR files are modelled"]
REQUIRED_UNION = ["answer", "shape", "other", "kept", "order", "failed", "version", "memory"]

GRIDBOX = None
METHODS = ["linear", "nearest-neighbour", "grid-box-average"]


class Grid:
    """A grid as MIR describes it, and how it is asked for."""

    def __init__(self, cx, name, kind, n):
        self.kind, self.n = kind, n
        if kind == "ll":
            dx, dy = cx.int(name + ".dx", 1, 9), cx.int(name + ".dy", 1, 9)
            w, no = cx.int(name + ".west", 0, 90), cx.int(name + ".north", 0, 60)
            e, s = w + dx * (n - 1), no
            self.key = ("ll", dx, dy, w, no)
            self.entry = {
                "type": "regular_ll",
                "ni": n,
                "nj": 1,
                "increments": {"west_east": dx, "south_north": dy},
                "bbox": {"north": no, "west": w, "south": s, "east": e},
            }
            self.spec = {"grid": [dx, dy], "area": [no, w, s, e]}
            self.shape = (1, n)
        elif kind in ("o", "n"):
            d = cx.str(name + ".N", 1, 1, lo=49, hi=57)
            N = ord(d) - 48 if type(d) is str else b_ord(d) - 48
            p = cx.int(name + ".pl", 1, 50)
            q = p + 4 if kind == "o" else p
            if kind == "n":
                k = cx.int(name + ".step", 0, 9)
                cx.assume(k != 4)
                q = p + k
            # only the number of points matters here: the rest of the rows
            self.entry = {
                "type": "reduced_gg",
                "N": N,
                "pl": [p, q, n - p - q],
                "bbox": {"north": 89.5, "west": 0, "south": -89.5, "east": 359},
                "global": 1,
            }
            self.key = (kind, N)
            self.spec = {"grid": kind.upper() + d}
            self.shape = (n,)
        elif kind == "h":
            order = cx.choice(name + ".order", ["ring", "nested"])
            d = cx.str(name + ".h", 1, 1, lo=49, hi=57)
            self.key = ("h", d, order)
            self.entry = {"type": "healpix", "grid": "H" + d, "order": order}
            self.spec = {"grid": "H" + d, "order": order}
            self.shape = (n,)
        else:
            d = cx.str(name + ".h", 1, 1, lo=49, hi=57)
            t = cx.choice(name + ".sub", ["T", "U"])
            self.key = ("orca", d, t)
            self.entry = {"type": "orca", "unstructuredGridType": "eORCA" + d, "unstructuredGridSubtype": t}
            self.spec = {"grid": "eORCA" + d + "_" + t}
            self.shape = (n,)

    def same(self, cx, o):
        if self.key[0] != o.key[0]:
            return False
        return cx.and_(self.n == o.n, *[a == b for a, b in zip(self.key, o.key)])


class Entry:
    def __init__(self, cx, i, kinds):
        name = "e%d" % i
        self.i = i
        self.src = Grid(cx, name + ".in", kinds[0], 2)
        self.dst = Grid(cx, name + ".out", kinds[1], cx.p("rows", 1))
        self.m = cx.choice(name + ".method", cx.p("methods", METHODS))
        method = self.m
        if self.m == "grid-box-average":
            form = cx.choice(name + ".form", ["text", "default", "options"])
            if form != "text":
                method = dict(mod("backends.db")._GRIDBOX_DEFAULT)
                if form == "options":
                    method["extra"] = 1
        self.method = method
        R = self.dst.n
        self.w = [[cx.float("%s.w%d%d" % (name, r, c), -9, 9) for c in range(2)] for r in range(R)]
        self.doc = {
            "input": self.src.entry,
            "output": self.dst.entry,
            "interpolation": {"engine": "mir", "version": 16, "method": method},
        }

    def same(self, cx, o):
        return cx.and_(self.m == o.m, self.src.same(cx, o.src), self.dst.same(cx, o.dst))

    def build(self, cx, out, **kw):
        R = self.dst.n
        d = cx.dir()
        cache = os.path.join(d, "m.mat")
        flat = [x for r in self.w for x in r]
        s = c22.write(cx, R, 2, [2 * r for r in range(R + 1)], [0, 1] * R, flat, True, 8)
        cx.binfile(cache, s.bytes())
        doc = dict(self.doc)
        doc["matrix"] = {"cache_file": cache, "nnz": 2 * R}
        f = os.path.join(d, "m.json")
        cx.dump_json(f, doc)
        mod("utils.builder").make_matrix(f, out, **kw)


def ask(cx, inv, gin, gout, method, values):
    return cx.try_(mod("array").regrid, values, dict(gin), dict(gout), interpolation=method, backend="precomputed", inventory=inv)


def vals(cx):
    import numpy as np

    return np.array([2.0, 3.0])


def verify(cx, inv, e, label="answer"):
    r, err = ask(cx, inv, e.src.spec, e.dst.spec, e.m, vals(cx).reshape(e.src.shape))
    cx.check(err is None, label, [e.i, e.src.kind, e.dst.kind, repr(err)])
    r = r[0]
    cx.check(tuple(r.shape) == e.dst.shape, "shape", [e.i, r.shape])
    got = r.ravel()
    cx.check(cx.and_(*[abs(g - (2.0 * w[0] + 3.0 * w[1])) <= 1e-6 for g, w in zip(got, e.w)]), label, [e.i, e.src.kind, e.dst.kind])


def entries(cx):
    es = [Entry(cx, i, k) for i, k in enumerate(cx.p("kinds"))]
    for i in range(len(es)):
        for j in range(i):
            cx.assume(cx.not_(es[i].same(cx, es[j])))
    return es


def build(cx):
    """Each entry is answered as it was built, also after more entries were added."""
    es = entries(cx)
    inv = cx.dir()
    for k, e in enumerate(es):
        e.build(cx, inv)
        if k < len(es) - 1 and cx.p("between"):
            verify(cx, inv, e)
            mod("backends.precomputed")  # the same inventory is read again below
    for e in es:
        verify(cx, inv, e, "kept" if e is not es[-1] else "answer")
    idx = index(cx, inv)
    cx.check(len(idx["matrix"]) == len(es), "kept", [len(idx["matrix"]), len(es)])
    for k, v in idx["matrix"].items():
        (f,) = [os.path.join(r, f) for r, _, fs in os.walk(inv) for f in fs if f == k + ".npz"]
        z = c22.load(cx, f)
        cx.check(v["memory"] == z.data.nbytes + z.indices.nbytes + z.indptr.nbytes, "memory", v["memory"])


def index(cx, d):
    with open(os.path.join(d, "index.json")) as f:
        x = json.load(f)
    if cx.symbolic:
        from symx import hooks

        return hooks.untoken(x)
    return x


def other(cx):
    """A request for anything else is not answered."""
    kinds = cx.p("kinds")
    e = Entry(cx, 0, kinds[0])
    inv = cx.dir()
    e.build(cx, inv)
    src, dst = Grid(cx, "q.in", kinds[0][0], 2), Grid(cx, "q.out", kinds[0][1], e.dst.n)
    m = cx.choice("q.method", METHODS)
    cx.assume(cx.not_(cx.and_(m == e.m, src.same(cx, e.src), dst.same(cx, e.dst))))
    r, err = ask(cx, inv, src.spec, dst.spec, m, vals(cx).reshape(src.shape))
    cx.check(isinstance(err, ValueError), "other", [e.src.key, src.key, e.dst.key, dst.key, m, repr(err)])
    # the other way round
    if kinds[0][0] != kinds[0][1]:
        r, err = ask(cx, inv, e.dst.spec, e.src.spec, e.m, vals(cx).reshape(e.src.shape) if e.dst.n == 2 else vals(cx)[:1])
        cx.check(isinstance(err, ValueError), "other", ["roles", repr(err)])


def deep(cx, a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        return cx.and_(*[deep(cx, a[k], b[k]) for k in a])
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and cx.and_(True, *[deep(cx, x, y) for x, y in zip(a, b)])
    return a == b


def order(cx):
    es = entries(cx)
    one, two = cx.dir(), cx.dir()
    for e in es:
        e.build(cx, one)
    for e in es[::-1]:
        e.build(cx, two)
    cx.check(deep(cx, index(cx, one), index(cx, two)), "order")

    def files(d):
        return sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs)

    cx.check(files(one) == files(two), "order", [files(one), files(two)])
    for e in es:
        verify(cx, two, e)


def failed(cx):
    """An entry that cannot be built leaves the inventory as it was."""
    a, b = entries(cx)
    inv = cx.dir()
    a.build(cx, inv)
    before = index(cx, inv)
    how = cx.choice("how", ["no-file", "truncated", "type", "version"])
    f = os.path.join(cx.dir(), "m.json")
    cache = os.path.join(os.path.dirname(f), "m.mat")
    if how == "truncated":
        s = c22.write(cx, 1, 2, [0, 2], [0, 1], [1.0, 2.0], True, 8).bytes()
        cx.binfile(cache, s[: len(s) - 8])
    doc = dict(b.doc)
    doc["matrix"] = {"cache_file": cache, "nnz": 2}
    if how == "type":
        doc["output"] = dict(doc["output"], type="no_such_grid")
        cx.binfile(cache, c22.write(cx, 1, 2, [0, 2], [0, 1], [1.0, 2.0], True, 8).bytes())
    cx.dump_json(f, doc)
    if how == "version":
        v = cx.int("version", 0, 99)
        cx.assume(v != 1)
        broken = dict(before, version=v)
        cx.dump_json(os.path.join(inv, "index.json"), broken)
        r, e = cx.try_(b.build, cx, inv)
        cx.check(isinstance(e, ValueError), "version", repr(e))
        cx.check(deep(cx, index(cx, inv), broken), "version")
        return
    r, e = cx.try_(mod("utils.builder").make_matrix, f, inv)
    cx.check(e is not None, "failed", how)
    cx.check(deep(cx, index(cx, inv), before), "failed", how)
    verify(cx, inv, a, "failed")


def flags(cx):
    """The global flags given to the builder are recorded where the entry has none."""
    e = Entry(cx, 0, ["ll", "ll"])
    inv = cx.dir()
    kw, want = {}, {}
    for side, g in (("input", e.src), ("output", e.dst)):
        own = cx.choice(side + ".own", [None, 0, 1])
        given = cx.choice(side + ".given", [None, False, True])
        if own is not None:
            g.entry["global"] = own
        if given is not None:
            kw["global_" + side] = given
        want[side] = own if own is not None else given if given is None else int(given)
    custom = cx.bool("custom")
    if custom:
        kw["index_file"] = os.path.join(cx.dir(), "index.json")
    e.build(cx, inv, **kw)
    idx = index(cx, os.path.dirname(kw["index_file"]) if custom else inv)
    cx.check(os.path.exists(os.path.join(inv, "index.json")) == (not custom), "kept", "index file")
    (rec,) = idx["matrix"].values()
    for side in ("input", "output"):
        cx.check(("global" in rec[side]) == (want[side] is not None), "kept", [side, want])
        if want[side] is not None:
            cx.check(rec[side]["global"] == want[side], "kept", [side, want])
    cx.check(deep(cx, rec["input"]["area"], e.src.spec["area"]), "kept", "area")
    cx.check(rec["interpolation"]["engine"] == "mir" and rec["interpolation"]["version"] == 16, "kept")


HARNESS = {"build": build, "other": other, "order": order, "failed": failed, "flags": flags}


def jobs(tier):
    out = []
    kinds = ["ll", "o", "n", "h", "orca"]
    for k in kinds:
        for q in kinds:
            out.append({"h": "build", "params": {"kinds": [[k, q]]}, "fp": "real"})
            if "ll" in (k, q) or k == q:
                out.append({"h": "other", "params": {"kinds": [[k, q]], "methods": ["linear"]}, "fp": "real"})
    out.append({"h": "build", "params": {"kinds": [["ll", "ll"]], "rows": 2}, "fp": "real"})
    two = ["linear", "nearest-neighbour"]
    for k in kinds:
        out.append({"h": "build", "params": {"kinds": [[k, "ll"], [k, "ll"]], "between": True, "methods": two}, "fp": "real"})
        out.append({"h": "order", "params": {"kinds": [[k, "ll"], ["ll", k]], "methods": two}, "fp": "real"})
    if tier != "quick":
        for k in kinds:
            out.append({"h": "build", "params": {"kinds": [["ll", k], [k, "ll"], [k, k]], "between": True, "methods": ["linear"]}, "fp": "real"})
    out.append({"h": "failed", "params": {"kinds": [["ll", "ll"], ["ll", "h"]], "methods": ["linear"]}, "fp": "real"})
    out.append({"h": "flags", "params": {"methods": ["linear"]}, "fp": "real"})
    return out
