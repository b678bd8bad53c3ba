"""C02: an inventory lookup returns exactly the entry that was asked for."""
from symx.ctx import mod

from ._inv import write_inventory

TECHNIQUE = "symbolic execution of the instrumented source + z3 (symbolic inventories and requests)"
LEVEL_NOTE = (
    "Complete for every inventory and request within the bounds; grid equality itself is decided by C03-C05. Trusts z3, the "
    "instrumentation and the JSON model (validated by replay on real index.json/npz files)."
)
BOUNDS = (
    "inventories of 1-3 entries with symbolic grid numbers (1 digit each), method out of 3 + aliases, symbolic engine version, "
    "string or dictionary methods, in any order; requests symbolic; unsupported entries at any position; any integer index version"
)
OUTSIDE = "larger inventories; remote inventories (see C17)"
ASSUMPTIONS = ["grid numbers are single digits 1-9 so that different numbers are different grids"]
REQUIRED_UNION = ["found", "not-found", "skipped", "version", "roles"]

METHODS = ["linear", "nearest-neighbour", "grid-box-average"]
ALIASES = {"nn": "nearest-neighbour", "nearest-neighbor": "nearest-neighbour"}


def digit(cx, name):
    return cx.str(name, 1, 1, lo=49, hi=57)


def entry(cx, i, extra=False):
    t = "e%d" % i
    m = cx.choice(t + ".method", METHODS)
    method = m
    if cx.p("dictm") and m == "grid-box-average":
        method = {"type": m, "opt": i}
    return {
        "name": "name%d" % i,
        "input": {"grid": "O" + digit(cx, t + ".in"), "shape": [2]},
        "output": {"grid": "N" + digit(cx, t + ".out"), "shape": [1]},
        "engine": "mir",
        "iversion": 16 + i,
        "method": method,
        "_m": m,
        # the weights identify the entry
        "weights": [[1.0 * 10**i, 0.0]],
        "wshape": (1, 2),
    }


def put(cx, es):
    return write_inventory(cx, [{k: v for k, v in e.items() if k != "_m"} for e in es])


def values(cx):
    import numpy as np

    return np.array([3.0, 5.0])


def lookup(cx, inv, gin, gout, method):
    if cx.p("api") == "interpolate":
        f = mod().interpolate
        return cx.try_(f, values(cx), in_grid=gin, out_grid=gout, method=method, matrix_source=inv)
    f = mod("array").regrid
    r, err = cx.try_(f, values(cx), gin, gout, interpolation=method, backend="precomputed", inventory=inv)
    return (r[0] if err is None else None), err


def find(cx):
    n = cx.p("n")
    es = [entry(cx, i) for i in range(n)]
    # inventories hold one entry per (input, output, method)
    for i in range(n):
        for j in range(i):
            cx.assume(
                cx.or_(
                    es[i]["_m"] != es[j]["_m"],
                    es[i]["input"]["grid"] != es[j]["input"]["grid"],
                    es[i]["output"]["grid"] != es[j]["output"]["grid"],
                )
            )
    inv = put(cx, es)
    gin, gout = "O" + digit(cx, "q.in"), "N" + digit(cx, "q.out")
    req = cx.choice("q.method", METHODS + list(ALIASES))
    real = ALIASES.get(req, req)
    hits = [
        cx.and_(e["_m"] == real, e["input"]["grid"] == gin, e["output"]["grid"] == gout)
        for e in es
    ]
    r, err = lookup(cx, inv, {"grid": gin}, {"grid": gout}, req)
    if err is not None:
        cx.check(isinstance(err, ValueError), "error-type", repr(err))
        cx.check(cx.not_(cx.or_(*hits)), "not-found", [gin, gout, req])
    else:
        cx.check(r.shape == (1,), "shape")
        cx.check(cx.or_(*[cx.and_(h, r[0] == 3.0 * 10**i) for i, h in enumerate(hits)]), "found", [gin, gout, req])
    cx.sample(method=req)


def roles(cx):
    """input and output are not interchangeable"""
    e = entry(cx, 0)
    inv = put(cx, [e])
    m = e["_m"]
    r, err = lookup(cx, inv, {"grid": e["output"]["grid"]}, {"grid": e["input"]["grid"]}, m)
    cx.check(isinstance(err, ValueError), "roles", [r, repr(err)])


def skipped(cx):
    """an entry this version does not support is ignored, wherever it stands; the others stay available"""
    a, b = entry(cx, 0), entry(cx, 1)
    cx.assume(cx.or_(a["_m"] != b["_m"], a["input"]["grid"] != b["input"]["grid"], a["output"]["grid"] != b["output"]["grid"]))
    bad = entry(cx, 2)
    side = cx.choice("side", ["input", "output"])
    how = cx.choice("how", ["type", "name", "none"])
    if how == "type":
        bad[side] = {"type": "new_grid_type", "grid": "X1"}
    elif how == "name":
        bad[side] = {"grid": "weird"}
    else:
        bad[side] = {"something": 1}
    pos = cx.choice("pos", [0, 1, 2])
    es = [a, b]
    es.insert(pos, bad)
    inv = put(cx, es)
    for i, e in enumerate((a, b)):
        r, err = lookup(cx, inv, {"grid": e["input"]["grid"]}, {"grid": e["output"]["grid"]}, e["_m"])
        cx.check(err is None, "skipped", repr(err))
        if err is None:
            cx.check(r[0] == 3.0 * 10**i, "skipped", r)


def version(cx):
    """an index of another format version is rejected"""
    e = entry(cx, 0)
    v = cx.int("version", -3, 10)
    inv = write_inventory(cx, [{k: x for k, x in e.items() if k != "_m"}], version=v)
    r, err = lookup(cx, inv, {"grid": e["input"]["grid"]}, {"grid": e["output"]["grid"]}, e["_m"])
    if err is None:
        cx.check(v == 1, "version", v)
    else:
        cx.check(cx.and_(v != 1, isinstance(err, ValueError)), "version", v)


def unknown(cx):
    """a method that no entry has finds nothing"""
    e = entry(cx, 0)
    inv = put(cx, [e])
    s = cx.str("method", 1, cx.p("len"))
    known = cx.or_(*[s == m for m in METHODS + list(ALIASES)])
    r, err = lookup(cx, inv, {"grid": e["input"]["grid"]}, {"grid": e["output"]["grid"]}, s)
    if err is None:
        cx.check(cx.or_(s == e["_m"], cx.and_(e["_m"] == "nearest-neighbour", known)), "found", s)
    else:
        cx.check(cx.and_(s != e["_m"], isinstance(err, ValueError)), "not-found", s)


HARNESS = {"find": find, "roles": roles, "skipped": skipped, "version": version, "unknown": unknown}


def jobs(tier):
    T = tier == "thorough"
    out = []
    for api in ("regrid", "interpolate"):
        for n in (1, 2, 3) if T else (1, 2):
            out.append({"h": "find", "params": {"n": n, "api": api, "dictm": n == 2}})
        out.append({"h": "roles", "params": {"api": api}})
        out.append({"h": "version", "params": {"api": api}})
        out.append({"h": "unknown", "params": {"api": api, "len": 17 if T else 7}})
    out.append({"h": "skipped", "params": {"api": "regrid"}})
    return out
