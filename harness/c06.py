"""C06: grid descriptions are plain values: never modified, spelling independent, history independent."""
from symx.ctx import mod

from ._grids import SCAN
from ._inv import write_inventory

TECHNIQUE = "symbolic execution of the instrumented source + z3 (symbolic gridspecs and spellings)"
LEVEL_NOTE = "Complete for every value and spelling combination within the bounds; trusts z3 and the instrumentation (validated by replay)."
BOUNDS = (
    "regular_ll / reduced_gg / healpix descriptions with symbolic increments, areas (integers, halves), scan flags and numbers; spellings: "
    "list/tuple, key order, int/float, explicit defaults, type given or not, letter case, order/ordering; histories of 3 descriptions"
)
OUTSIDE = "areas in arbitrary reals (C03); numpy arrays as grid values"
ASSUMPTIONS = []
REQUIRED_UNION = ["unmodified", "spelling", "history"]


def base_ll(cx, tag):
    d = {"grid": [cx.int(tag + ".dx", 1, 10), cx.int(tag + ".dy", 1, 10)]}
    a = cx.choice(tag + ".area", [None, "global", "part", "across"])
    if a == "global":
        d["area"] = [90, 0, -90, 360 - d["grid"][0]]
    elif a == "part":
        d["area"] = [cx.int(tag + ".n", 0, 90), cx.int(tag + ".w", -180, 0), cx.int(tag + ".s", -90, 0), cx.int(tag + ".e", 1, 180)]
    elif a == "across":
        d["area"] = [cx.int(tag + ".n", 0, 90), cx.int(tag + ".w", 181, 359), cx.int(tag + ".s", -90, 0), cx.int(tag + ".e", -180, 180)]
    return d


def base_gg(cx, tag):
    d = {"grid": cx.choice(tag + ".fam", ["O", "N"]) + cx.str(tag + ".no", 1, 2, lo=49, hi=57)}
    if cx.choice(tag + ".hasarea", [False, True]):
        d["area"] = [cx.int(tag + ".n", 0, 90), cx.int(tag + ".w", 0, 10), cx.int(tag + ".s", -90, 0), cx.int(tag + ".e", 20, 359)]
    return d


def base_hp(cx, tag):
    d = {"grid": "H" + cx.str(tag + ".no", 1, 2, lo=49, hi=57)}
    o = cx.choice(tag + ".order", [None, "ring", "nested"])
    if o:
        d["order"] = o
    return d


BASE = {"ll": base_ll, "gg": base_gg, "hp": base_hp}
TYPE = {"ll": "regular_ll", "gg": "reduced_gg", "hp": "healpix"}


def spelled(cx, d, kind, tag):
    """another way to write the same grid"""
    o = {k: (list(v) if isinstance(v, list) else v) for k, v in d.items()}
    if cx.choice(tag + ".tuple", [False, True]):
        o = {k: (tuple(v) if isinstance(v, list) else v) for k, v in o.items()}
    if kind == "ll" and cx.choice(tag + ".float", [False, True]):
        o = {k: (type(v)(tofloat(cx, x) for x in v) if isinstance(v, (list, tuple)) else v) for k, v in o.items()}
    if cx.choice(tag + ".type", [False, True]):
        o["type"] = TYPE[kind]
    if cx.choice(tag + ".defaults", [False, True]):
        for k in SCAN:
            o[k] = 0
    if isinstance(o["grid"], str) and cx.choice(tag + ".lower", [False, True]):
        o["grid"] = o["grid"].lower()
    if kind == "hp":
        if "order" in o and cx.choice(tag + ".ordering", [False, True]):
            o["ordering"] = o.pop("order")
        elif "order" not in o and cx.choice(tag + ".ring", [False, True]):
            o["order"] = "ring"
    if cx.choice(tag + ".rev", [False, True]):
        o = dict(reversed(list(o.items())))
    return o


def tofloat(cx, x):
    if cx.symbolic:
        from symx import hooks

        return hooks.b_float(x)
    return float(x)


def deep(x):
    if isinstance(x, dict):
        return {k: deep(v) for k, v in x.items()}
    if type(x) in (list, tuple):
        return type(x)(deep(v) for v in x)
    return x


def same(cx, x, y):
    """identical structure, types and values"""
    if isinstance(x, dict):
        return type(x) is type(y) and list(x) == list(y) and cx.and_(*[same(cx, x[k], y[k]) for k in x])
    if type(x) in (list, tuple):
        return type(x) is type(y) and len(x) == len(y) and cx.and_(*[same(cx, p, q) for p, q in zip(x, y)])
    return type(x) is type(y) and x == y


def spelling(cx):
    import numpy as np

    kind = cx.p("kind")
    d = BASE[kind](cx, "d")
    e_in = dict(d, shape=[2]) if kind != "ll" else dict(d, shape=[1, 2])
    out = {"grid": [10, 10], "shape": [1, 1]}
    if cx.p("side") == "in":
        e = {"input": e_in, "output": out}
    else:
        e = {"input": {"grid": "O3", "shape": [2]}, "output": dict(d, shape=[1])}
    inv = write_inventory(cx, [dict(e, name="n", method="linear", weights=[[2.0, 0.0]], wshape=(1, 2))])
    q = spelled(cx, d, kind, "q")
    gin, gout = (q, {"grid": (10, 10)}) if cx.p("side") == "in" else ({"grid": "o3"}, q)
    before = deep([gin, gout])
    regrid = mod("array").regrid
    r, err = cx.try_(regrid, np.array([3.0, 5.0]), gin, gout, interpolation="linear", backend="precomputed", inventory=inv)
    cx.check(err is None, "spelling", [d, q, repr(err)])
    cx.check(r[0].ravel()[0] == 6.0, "spelling", r)
    cx.check(same(cx, [gin, gout], before), "unmodified", [gin, gout])
    cx.check(same(cx, r[1], before[1]), "returned-grid")


def miss(cx):
    """a failed lookup does not modify its arguments either"""
    import numpy as np

    kind = cx.p("kind")
    q = spelled(cx, BASE[kind](cx, "d"), kind, "q")
    inv = write_inventory(cx, [{"name": "n", "input": {"grid": "O999"}, "output": {"grid": "N999"}, "method": "linear"}])
    gin, gout = q, {"grid": (10, 10)}
    before = deep([gin, gout])
    regrid = mod("array").regrid
    r, err = cx.try_(regrid, np.array([3.0, 5.0]), gin, gout, interpolation="linear", backend="precomputed", inventory=inv)
    cx.check(isinstance(err, ValueError), "missing", repr(err))
    cx.check(same(cx, [gin, gout], before), "unmodified", [gin, gout])


def history(cx):
    """what was described or compared before does not change what a description means"""
    G = mod("gridspec").GridSpec
    ka, kb = cx.p("ka"), cx.p("kb")
    a, b = BASE[ka](cx, "a"), BASE[kb](cx, "b")
    g1 = G.from_dict(deep(b))
    snap = deep(dict(g1))
    x = G.from_dict(a)
    r1 = bool(x == g1)
    y = G.from_dict(a)
    y == x
    # the first description is unchanged and a new one of the same grid is the same
    g2 = G.from_dict(deep(b))
    cx.check(same(cx, dict(g2), snap), "history", [dict(g2), snap])
    cx.check(same(cx, dict(g1), snap), "history", [dict(g1), snap])
    cx.check(g1 == g2, "history")
    cx.check(bool(x == g2) == r1, "history")
    cx.check(g1 == g1, "reflexive")


HARNESS = {"spelling": spelling, "miss": miss, "history": history}


def jobs(tier):
    out = []
    for k in ("ll", "gg", "hp"):
        for s in ("in", "out"):
            out.append({"h": "spelling", "params": {"kind": k, "side": s}})
        out.append({"h": "miss", "params": {"kind": k}})
    for ka in ("ll", "gg", "hp"):
        for kb in ("ll", "gg", "hp"):
            out.append({"h": "history", "params": {"ka": ka, "kb": kb}})
    out.sort(key=lambda j: j["params"] != {"ka": "gg", "kb": "gg"})  # the longest first
    return out
