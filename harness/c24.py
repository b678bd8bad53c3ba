"""C24: a request is answered by exactly the backend and options it names."""
import sys
import types

from symx.ctx import mod

from ._inv import write_inventory

TECHNIQUE = "symbolic execution of the instrumented source + z3 (symbolic names, options and values; a recording stand-in for the MIR library)"
LEVEL_NOTE = (
    "Complete for all values within the stated bounds, for every subset of the options. The MIR library is replaced by a stand-in that "
    "records the job it is given; what MIR does with the job is outside."
)
BOUNDS = (
    "backend names of up to 11 characters; every subset of the documented options with symbolic values (text of up to 3 characters, numbers "
    "1..10^6); output areas of symbolic integers as list, tuple or text; arrays and GRIB messages; sequences of 3 (thorough 4) requests "
    "over 2 inventories through both interfaces"
)
OUTSIDE = "plugins adding backends; the remote inventory (C17)"
ASSUMPTIONS = ["the MIR library takes options by Job.set and does not change them"]
REQUIRED_UNION = ["grid", "option", "not-invented", "result", "unknown-backend", "unknown-data", "unknown-option", "own-inventory", "area", "not-modified", "precomputed"]
DEFAULTS = {"nearest_method": "automatic", "distance": 1, "distance_tolerance": 1, "nclosest": 4}


class Rec:
    """stand-in for the MIR library"""

    def __init__(self, cx):
        self.jobs = []
        rec = self
        m = types.ModuleType("mir")

        class Job:
            def __init__(self):
                self.opts = []
                rec.jobs.append(self)

            def set(self, k, v):
                self.opts.append((k, v))
                return self

            def execute(self, i, o):
                self.input, self.output = i, o
                o.done(self)

        class ArrayInput:
            def __init__(self, values, spec=None):
                self.values, self.spec = values, spec

        class ArrayOutput:
            def done(self, job):
                self.result = object()
                self.spec = object()

            def values(self):
                return self.result

        class GribMemoryInput:
            def __init__(self, message):
                self.message = message

        m.Job, m.ArrayInput, m.ArrayOutput, m.GribMemoryInput = Job, ArrayInput, ArrayOutput, GribMemoryInput
        m.cache = lambda: None
        old = sys.modules.get("mir")
        sys.modules["mir"] = m

        def undo():
            if old is None:
                sys.modules.pop("mir", None)
            else:
                sys.modules["mir"] = old

        cx.on_exit(undo)


def one(job, k):
    """the last value set for an option"""
    v = [x for n, x in job.opts if n.replace("-", "_") == k]
    return (True, v[-1]) if v else (False, None)


def options(cx):
    """-> the options given in the call"""
    given = {}
    if cx.p("interp", True) and cx.bool("has.interpolation"):
        given["interpolation"] = cx.str("interpolation", 1, 3, lo=97, hi=122)
    for k in cx.p("opts"):
        if cx.bool("has." + k):
            if k != "nearest_method":
                given[k] = cx.int(k, 1, 10**6)
            elif cx.p("explicit") and cx.bool("automatic"):
                given[k] = "automatic"
            else:
                given[k] = cx.str(k, 1, 2, lo=97, hi=122)
    return given


def check_job(cx, job, given, info):
    has, v = one(job, "interpolation")
    cx.check(has and v == given.get("interpolation", "linear"), "option", ["interpolation", info, v])
    for k, d in DEFAULTS.items():
        has, v = one(job, k)
        if k in given:
            auto = given[k] == "automatic" if isinstance(given[k], str) and type(given[k]) is str else False
            # "automatic" is what MIR does when no method is named
            cx.check((auto and not has) or (has and v == given[k]), "option", [k, info, v])
        else:
            # what is not given has its documented default
            cx.check((not has) or (v is d or v == d), "not-invented", [k, info, v])
    names = {n.replace("-", "_") for n, _ in job.opts}
    cx.check(names <= {"grid", "interpolation", "area", *DEFAULTS}, "not-invented", sorted(names))


def grids(cx):
    """-> (out grid, expected grid for the job, expected area or None)"""
    form = cx.p("area")
    g = {"grid": [10, 10]}
    if not form:
        return g, {"grid": [10, 10]}, None
    a = [cx.int("a%d" % i, 0, 99) if cx.p("syma") or i == 1 else 7 for i in range(4)]
    g = {"grid": [10, 10]}
    if form == "list":
        g["area"] = list(a)
    elif form == "tuple":
        g["area"] = tuple(a)
    else:
        g["area"] = text_of(cx, a)
    return g, {"grid": [10, 10]}, a


def text_of(cx, a):
    if cx.symbolic:
        from symx import hooks

        return hooks.str_method("/", "join", [[hooks.b_str(x) for x in a]], {})
    return "/".join(str(x) for x in a)


def array(cx):
    import numpy as np

    rec = Rec(cx)
    g, want, area = grids(cx)
    before = {k: (list(v) if isinstance(v, list) else v) for k, v in g.items()}
    given = options(cx)
    x = np.array([1.0, 2.0])
    gin = {"grid": "O" + cx.str("n", 1, 1, lo=49, hi=57)}
    if cx.p("explicit") and cx.bool("has.backend"):
        given["backend"] = "mir"
    vals, spec = mod("array").regrid(x, gin, g, **given)
    given.pop("backend", None)
    cx.check(len(rec.jobs) == 1, "result", len(rec.jobs))
    job = rec.jobs[0]
    cx.check(job.input.values is x and job.input.spec["grid"] == gin["grid"], "result", "input")
    cx.check(vals is job.output.result and spec is job.output.spec, "result", "output")
    has, v = one(job, "grid")
    cx.check(has and dict(v) == want, "grid", [v])
    check_area(cx, job, area)
    check_job(cx, job, given, sorted(given))
    cx.check(list(g) == list(before) and all(type(g[k]) is type(before[k]) and cx.and_(*[p == q for p, q in zip(g[k], before[k])]) for k in g), "not-modified", [g, before])


def check_area(cx, job, area):
    has, v = one(job, "area")
    if area is None:
        cx.check(not has, "not-invented", ["area", v])
    else:
        cx.check(has and v == text_of(cx, area), "area", [v])


def message(cx):
    from io import BytesIO

    rec = Rec(cx)
    import mir

    def execute(self, i, o):
        self.input, self.output = i, o
        o.write(b"result")

    mir.Job.execute = execute
    g, want, area = grids(cx)
    given = options(cx)
    msg = b"GRIB\x00\x01"
    form = cx.choice("form", ["bytes", "io", "io-read"])
    data = msg if form == "bytes" else BytesIO(msg)
    if form == "io-read":
        data.read(2)
    r = mod().regrid(data, grid=g, **given)
    cx.check(len(rec.jobs) == 1, "result", len(rec.jobs))
    job = rec.jobs[0]
    cx.check(job.input.message == msg and r == b"result", "result", [job.input.message, r])
    has, v = one(job, "grid")
    cx.check(has and dict(v) == want, "grid", [v])
    check_area(cx, job, area)
    check_job(cx, job, given, sorted(given))


def names(cx):
    """unknown backends, data types and options are refused"""
    import numpy as np

    rec = Rec(cx)
    d = write_inventory(cx, [inv_entry("a", 3.0)])
    what = cx.p("what")
    x = np.array([1.0])
    if what == "backend":
        n = cx.p("n")
        s = cx.str("backend", n, n, lo=32, hi=126)
        use = cx.choice("inv", [False, True])
        kw = {"inventory": d} if use else {}
        r, e = cx.try_(mod("array").regrid, x, {"grid": "O1"}, {"grid": [10, 10]}, backend=s, **kw)
        known = cx.or_(s == "mir", s == "precomputed")
        if cx.symbolic and n not in (3, 11):
            known = False
        cx.check(cx.or_(known, isinstance(e, ValueError)), "unknown-backend", [s, r, e])
        cx.check(cx.or_(s == "mir", len(rec.jobs) == 0), "unknown-backend", [s, len(rec.jobs)])
        r, e = cx.try_(mod().regrid, b"GRIB", grid={"grid": [10, 10]}, backend=s + "x" if n in (2, 10) else "x" + s)
        cx.check(isinstance(e, ValueError) or n == 2 or n == 10, "unknown-backend", [s, r, e])
    elif what == "data":
        k = cx.choice("data", range(9))
        v = [x, [1.0, 2.0], None, 3, "text", {"grid": 1}, object(), (1,), bytearray(b"GRIB")][k]
        r, e = cx.try_(mod().regrid, v, grid={"grid": [10, 10]}, backend=cx.choice("b", ["mir", "precomputed"]))
        cx.check(isinstance(e, ValueError), "unknown-data", [k, r, e])
        if k:
            r, e = cx.try_(mod().interpolate, v, {"grid": "O1"}, {"grid": [10, 10]}, matrix_source=d)
            cx.check(isinstance(e, ValueError), "unknown-data", [k, r, e])
    else:
        opt = cx.choice("opt", ["method", "nclosestt", "matrix_source", "foo", "grid", "nearest-method"])
        b = cx.choice("b", ["mir", "precomputed"])
        kw = {"inventory": d} if b == "precomputed" else {}
        r, e = cx.try_(mod("array").regrid, x, {"grid": "O1"}, {"grid": [10, 10]}, backend=b, **kw, **{opt: 1})
        cx.check(e is not None, "unknown-option", [opt, b, r])
        if b == "precomputed":
            # the options of MIR mean nothing here
            o2 = cx.choice("o2", list(DEFAULTS))
            r, e = cx.try_(mod("array").regrid, x, {"grid": "O1"}, {"grid": [10, 10]}, backend=b, **kw, **{o2: 1})
            cx.check(e is not None, "unknown-option", [o2, b, r])
            r, e = cx.try_(mod().regrid, b"GRIB", grid={"grid": [10, 10]}, backend=b, **kw)
            cx.check(isinstance(e, ValueError), "unknown-data", [r, e])
        cx.check(len(rec.jobs) == 0, "unknown-option", [opt, b])


def inv_entry(name, w, gin="O1", method="linear"):
    return {
        "name": name,
        "input": {"grid": gin, "shape": [1]},
        "output": {"grid": [10, 10], "shape": [1, 1]},
        "method": method,
        "weights": [[w]],
        "wshape": (1, 1),
        "memory": 20,
    }


def sequence(cx):
    """each request is answered from the inventory it names, through either interface"""
    import numpy as np

    rec = Rec(cx)
    mod().config.autosave = False
    mod().config.set("weights-memory-cache-policy", cx.p("policy", "off"))
    w, dirs = {}, []
    for a in range(2):
        es = []
        for m in ("linear", "nearest-neighbour"):
            w[a, m] = cx.float("w%d%s" % (a, m[0]), -1000, 1000)
            es.append(inv_entry("e" + m[0], w[a, m], method=m))
        dirs.append(write_inventory(cx, es))
    hist = []
    for step in range(cx.p("L")):
        a = cx.choice("a%d" % step, [0, 1])
        m = cx.choice("m%d" % step, ["linear", "nearest-neighbour", None])
        how = cx.choice("how%d" % step, ["regrid", "interpolate", "mir"])
        hist.append((a, m, how))
        x = np.array([1.0])
        gin, gout = {"grid": "O1"}, {"grid": [10, 10]}
        before = len(rec.jobs)
        if how == "regrid":
            kw = {} if m is None else {"interpolation": m}
            r, spec = mod("array").regrid(x, gin, gout, backend="precomputed", inventory=dirs[a], **kw)
        elif how == "interpolate":
            kw = {} if m is None else {"method": m}
            r = mod().interpolate(x, gin, gout, matrix_source=dirs[a], **kw)
        else:
            kw = {} if m is None else {"interpolation": m}
            mod("array").regrid(x, gin, gout, **kw)
            cx.check(len(rec.jobs) == before + 1, "result", hist)
            cx.check(one(rec.jobs[-1], "interpolation")[1] == (m or "linear"), "option", hist)
            continue
        cx.check(len(rec.jobs) == before, "precomputed", hist)
        cx.check(r.shape == (1, 1) and r[0, 0] == w[a, m or "linear"], "own-inventory", [hist, r])


HARNESS = {"array": array, "message": message, "names": names, "sequence": sequence}


def jobs(tier):
    out = []
    A = list(DEFAULTS)
    for h in ("array", "message"):
        out.append({"h": h, "params": {"opts": A, "interp": False}})
        out.append({"h": h, "params": {"opts": A[:1], "explicit": True}})
        for form in ("list", "tuple", "text"):
            out.append({"h": h, "params": {"opts": A[3:], "interp": False, "area": form, "syma": tier != "quick"}})
        if tier != "quick":
            out.append({"h": h, "params": {"opts": A}})
    for n in (1, 2, 3, 4, 10, 11):
        out.append({"h": "names", "params": {"what": "backend", "n": n}})
    out.append({"h": "names", "params": {"what": "data"}})
    out.append({"h": "names", "params": {"what": "option"}})
    out.append({"h": "sequence", "params": {"L": 2 if tier == "quick" else 3}})
    out.append({"h": "sequence", "params": {"L": 2, "policy": "lru"}})
    return out
