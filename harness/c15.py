"""C15: distinct cache items never share a file."""
import os

from ._disk import D, World

TECHNIQUE = "symbolic execution of the instrumented source + z3 (symbolic arguments; the digest is an injective function of what is hashed)"
LEVEL_NOTE = (
    "Complete for all pairs of arguments of the stated shapes with symbolic leaves; SHA-256 is taken to be injective on what is fed to it, JSON "
    "text as equal exactly when the values are; trusts z3 and the instrumentation (paths replayed on the plain package)."
)
BOUNDS = (
    "pairs of requests with owners out of 4, extensions out of 3, arguments of 9 shapes (lists, dicts, nested, permuted keys, up to 2 leaves) whose leaves are symbolic integers "
    "(-9..99), strings of up to 2 characters, dates, None or booleans, and hash_extra absent or a dict; policies user, temporary and off"
)
OUTSIDE = "arguments that are bare scalars together with hash_extra; keys that are no strings; other values than JSON has"
ASSUMPTIONS = ["SHA-256 has no collisions", "two temporary names drawn from the clock and the random generator differ"]
REQUIRED_UNION = ["same-file", "other-file", "content", "private"]
SCHED = True
DISK = True

OWNERS = ["own", "Own", "url", "own-b"]
EXT = [".cache", ".npz", ""]

SHAPES = {
    "list1": lambda a, b: [a],
    "list2": lambda a, b: [a, b],
    "nested": lambda a, b: [[a], b],
    "nested2": lambda a, b: [[a, b]],
    "dict1": lambda a, b: {"u": a},
    "dict1b": lambda a, b: {"v": a},
    "dict2": lambda a, b: {"u": a, "v": b},
    "dict2r": lambda a, b: {"v": b, "u": a},
    "deep": lambda a, b: {"u": {"v": a}, "w": [b]},
}


def eq(cx, x, y):
    if isinstance(x, dict) or isinstance(y, dict):
        if not (isinstance(x, dict) and isinstance(y, dict)) or sorted(x) != sorted(y):
            return False
        return cx.and_(*[eq(cx, x[k], y[k]) for k in x])
    if isinstance(x, list) or isinstance(y, list):
        if not (isinstance(x, list) and isinstance(y, list)) or len(x) != len(y):
            return False
        return cx.and_(*[eq(cx, a, b) for a, b in zip(x, y)])
    if kind(x) != kind(y):
        return False
    return x == y


def kind(x):
    n = type(x).__name__
    return {"SymInt": "int", "SymStr": "str"}.get(n, n)


def leaf(cx, name, k):
    if k == "int":
        return cx.int(name, -9, 99)
    if k == "str":
        return cx.str(name, 0, 2, lo=34, hi=92)
    return {"none": None, "true": True, "one": 1, "strone": "1", "float": 1.5}[k]


def pair(cx):
    w = World(cx, policy=cx.p("policy", "user"), temporary_cache_directory_root=None)
    w.conf["temporary-cache-directory-root"] = os.path.join(w.root, "tmp")
    w.start()
    asked = []
    for n in range(2):
        shape = cx.p("shape") if n == 0 else cx.choice("shape", sorted(SHAPES))
        ks = cx.p("leaves")[n]
        args = SHAPES[shape](leaf(cx, "a%d" % n, ks[0]), leaf(cx, "b%d" % n, ks[1]))
        ask = {"args": args, "owner": "own", "extension": ".cache", "extra": None}
        if cx.p("vary") == "names":
            ask["owner"] = cx.choice("owner%d" % n, OWNERS)
            ask["extension"] = cx.choice("ext%d" % n, EXT)
        elif cx.p("vary") == "extra":
            ask["extra"] = {"e": cx.int("e%d" % n, 0, 9)} if cx.choice("extra%d" % n, [True, False]) else None
        tag = "%dz" % n
        p = w.caching.cache_file(
            ask["owner"], w.creator(tag, 10), ask["args"], hash_extra=ask["extra"], extension=ask["extension"]
        )
        ask.update(path=p, tag=tag)
        asked.append(ask)
    a, b = asked
    same = cx.and_(
        a["owner"] == b["owner"], a["extension"] == b["extension"], eq(cx, a["args"], b["args"]), eq(cx, [a["extra"]], [b["extra"]])
    )
    shared = a["path"] == b["path"]
    info = [a["owner"], a["args"], a["extra"], b["owner"], b["args"], b["extra"]]
    if shared:
        cx.check(same, "other-file", info)
        cx.check(w.read(b["path"]) == "0z", "content", info)
    else:
        cx.check(cx.not_(same), "same-file", info)
        cx.check(w.read(b["path"]) == "1z", "content", info)
    cx.check(w.read(a["path"]) == "0z", "content", info)
    cx.check(a["path"].endswith(a["extension"]) and b["path"].endswith(b["extension"]), "content", info)
    where = w.cache.directory()
    cx.check(where.startswith(w.dir if cx.p("policy", "user") == "user" else os.path.join(w.root, "tmp")), "private", where)
    cx.check(os.path.dirname(a["path"]) == where == os.path.dirname(b["path"]), "private", info)


def off(cx):
    """without a cache every request has a file of its own, and the cache directories stay as they are"""
    w = World(cx, policy="off")
    w.conf["temporary-cache-directory-root"] = os.path.join(w.root, "tmp")
    w.conf["temporary-directory-root"] = os.path.join(w.root, "scratch")
    w.start()
    n = cx.p("n", 3)
    asked = []
    a = [cx.int("a%d" % i, 0, 1) for i in range(n)]
    for i in range(n):
        force = cx.choice("force%d" % i, [None, True])
        p = w.caching.cache_file("own", w.creator("%dz" % i, 10), {"a": a[i]}, force=force)
        asked.append(p)
    cx.check(len(set(asked)) == n, "private", asked)
    for i, p in enumerate(asked):
        cx.check(w.read(p) == "%dz" % i, "content", asked)
        cx.check(os.path.dirname(p) == w.cache.directory(), "private", asked)
    cx.check(os.listdir(w.dir) == [], "private", os.listdir(w.dir))
    cx.check(not os.path.exists(os.path.join(w.root, "tmp")), "private", "temporary cache")
    cx.check(not w.dir.startswith(w.cache.directory()), "private", w.cache.directory())


HARNESS = {"pair": pair, "off": off}


def jobs(tier):
    q = tier == "quick"
    out = []
    ii, ss, i_s = ["int", "int"], ["str", "str"], ["int", "str"]
    for shape in sorted(SHAPES):
        for leaves in ([ii, ii], [i_s, i_s]) if q else ([ii, ii], [i_s, i_s], [ss, ss], [ii, i_s]):
            out.append({"h": "pair", "params": {"shape": shape, "leaves": leaves}})
    for leaves in ([["one", "int"], ["true", "int"]], [["one", "int"], ["strone", "int"]], [["none", "int"], ["str", "int"]], [["float", "int"], ["int", "int"]], [["int", "str"], ["str", "int"]]):
        out.append({"h": "pair", "params": {"shape": "dict2", "leaves": leaves}})
    out.append({"h": "pair", "params": {"shape": "dict1", "leaves": [ii, ii], "vary": "names"}})
    out.append({"h": "pair", "params": {"shape": "dict2", "leaves": [ii, ii], "vary": "extra"}})
    out.append({"h": "pair", "params": {"shape": "dict2", "leaves": [ii, ii], "policy": "temporary"}})
    out.append({"h": "off", "params": {}})
    return out
