"""C25: a field list is regridded field by field."""
import os
import sys
import types

from symx.ctx import mod, repo_root

from ._inv import write_inventory

TECHNIQUE = "symbolic execution of the instrumented source + z3 (symbolic field values; field lists as symbolic choices)"
LEVEL_NOTE = (
    "Complete for all field values, for every list within the bounds. earthkit-data, ecCodes and numpy are the real libraries; the "
    "interpolation is done by the real precomputed backend with given matrices, or by a recording stand-in for mir.Job working on real "
    "GRIB messages."
)
BOUNDS = (
    "lists of up to 3 fields (and single fields) on 2 source grids with metadata of different level, step and parameter; 2 target grids; "
    "a field that cannot be regridded at any place; for MIR, fields from a file, from memory and from arrays with symbolic options"
)
OUTSIDE = "the values written by MIR; earthkit-data itself"
ASSUMPTIONS = ["earthkit-data and ecCodes are correct"]
REQUIRED_UNION = ["length", "values", "metadata", "grid", "unmodified", "rejected", "message", "option"]

IN = {"a": {"grid": [90, 90]}, "b": {"grid": [120, 90]}, "x": {"grid": [180, 90]}}
SH = {"a": (3, 4), "b": (3, 3), "x": (3, 2)}
OUT = {"p": ({"grid": [180, 90]}, (3, 2)), "q": ({"grid": [120, 90]}, (3, 3))}
KEYS = ["shortName", "level", "step", "date", "time", "number", "paramId"]


def rows(k, o, m):
    n, c = OUT[o][1][0] * OUT[o][1][1], SH[k][0] * SH[k][1]
    s = 3 if m == "linear" else 5
    return [[float((s * i + 7 * j + i * j + (4 if k == "a" else 0)) % 9 - 3) for j in range(c)] for i in range(n)]


_MD = []


def base_md():
    """the metadata of a real field"""
    if not _MD:
        import earthkit.data as ekd

        f = ekd.from_source("file", os.path.join(repo_root(), "tests", "data", "o32.grib2"))[0]
        _MD.append(f.metadata())
    return _MD[0]


def metadata(kind, i, spec=None):
    G = mod("gridspec").GridSpec
    return base_md().override(gridspec=G.from_dict(spec or IN[kind]), level=100 + 7 * i, step=[0, 6, 3][i % 3], paramId=[130, 131, 130][i % 3])


def make(cx, kinds):
    import earthkit.data as ekd

    r = []
    for i, k in enumerate(kinds):
        v = cx.array("v%d" % i, SH[k])
        r.append(ekd.FieldList.from_array(v, metadata(k, i))[0])
    return r


def state(f):
    md = f.metadata()
    return [md.get(k, None) for k in KEYS], dict(md.gridspec), f.to_numpy(flatten=True).copy(), f.shape


def same_state(a, b):
    return a[0] == b[0] and a[1] == b[1] and a[3] == b[3] and all(p is q or (not hasattr(p, "e") and p == q) for p, q in zip(a[2], b[2]))


def inventory(cx, out):
    es = []
    for k in ("a", "b"):
        for m in ("linear", "nearest-neighbour"):
            w = rows(k, out, m)
            es.append(
                {
                    "name": "m%d" % len(es),
                    "input": dict(IN[k], shape=list(SH[k])),
                    "output": dict(OUT[out][0], shape=list(OUT[out][1])),
                    "method": m,
                    "weights": w,
                    "wshape": (len(w), len(w[0])),
                }
            )
    return write_inventory(cx, es)


def expected(v, w, shape):
    import numpy as np

    out = np.empty(len(w), dtype=object)
    for i, r in enumerate(w):
        acc = 0.0
        for j, x in enumerate(r):
            acc = acc + x * v[j]
        out[i] = acc
    return out.reshape(shape)


def setup(cx):
    mod().config.autosave = False
    mod().config.set("weights-memory-cache-policy", "off")


def arrays(cx):
    """the precomputed backend: the values of each field with the matrix of its own grid"""
    import earthkit.data as ekd

    setup(cx)
    out, single = cx.p("out"), cx.p("single")
    n = 1 if single else cx.choice("n", list(range(cx.p("max") + 1)))
    kinds = [cx.choice("k%d" % i, ["a", "b"] + (["x"] if cx.p("bad") else [])) for i in range(n)]
    fs = make(cx, kinds)
    m = cx.choice("m", ["linear", "nearest-neighbour"]) if not cx.p("bad") else "linear"
    inv = inventory(cx, out)
    before = [state(f) for f in fs]
    g = dict(OUT[out][0])
    arg = fs[0] if single else ekd.FieldList.from_fields(fs)
    if cx.p("api") == "interpolate":
        import warnings

        warnings.simplefilter("ignore")
        r, err = cx.try_(mod().interpolate, arg, out_grid=g, method=m, matrix_source=inv)
    else:
        r, err = cx.try_(mod().regrid, arg, grid=g, interpolation=m, backend="precomputed", inventory=inv)
    cx.check(g == OUT[out][0], "unmodified", g)
    for f, b in zip(fs, before):
        cx.check(same_state(state(f), b), "unmodified")
    if not single:
        cx.check(len(arg) == n and all(p is q for p, q in zip(arg, fs)), "unmodified")
    if "x" in kinds:
        # no matrix for one of the fields: none is returned
        cx.check(err is not None, "rejected", kinds)
        return
    cx.check(err is None, "values", [kinds, repr(err)])
    if single:
        r = [r]
    cx.check(len(r) == n, "length", [kinds, len(r)])
    for i, f in enumerate(r):
        v = f.to_numpy()
        e = expected(before[i][2], rows(kinds[i], out, m), OUT[out][1])
        cx.check(v.shape == e.shape and cx.eq_array(v, e if cx.symbolic else e.astype(float)), "values", [kinds, i])
        md = f.metadata()
        cx.check([md.get(k, None) for k in KEYS] == before[i][0], "metadata", [kinds, i, [md.get(k, None) for k in KEYS], before[i][0]])
        gs = md.gridspec
        cx.check([float(x) for x in gs["grid"]] == [float(x) for x in g["grid"]] and gs["type"] == "regular_ll", "grid", [i, dict(gs)])
        cx.check(f.shape == OUT[out][1], "grid", [i, f.shape])


def targets(cx):
    """only targets whose metadata can be written are accepted"""
    import earthkit.data as ekd

    setup(cx)
    fs = make(cx, ["a"] * cx.choice("n", [1, 2]))
    g = cx.choice("g", [{"grid": "O3"}, {"grid": "N3"}, {"grid": "H1"}, {"grid": "H1", "order": "nested"}, None, {}, {"grid": [60, 60]}])
    inv = inventory(cx, "p")
    r, err = cx.try_(mod().regrid, ekd.FieldList.from_fields(fs), grid=g, interpolation="linear", backend="precomputed", inventory=inv)
    cx.check(err is not None, "rejected", g)


class Rec:
    """stand-in for the MIR library, answering a GRIB message with one of its own"""

    def __init__(self, cx, fail=None):
        self.jobs = []
        rec = self
        m = types.ModuleType("mir")

        class Job:
            def __init__(self):
                self.opts = {}
                rec.jobs.append(self)

            def set(self, k, v):
                self.opts[k] = v
                return self

            def execute(self, i, o):
                self.message = i.message
                if fail is not None and len(rec.jobs) - 1 == fail:
                    raise RuntimeError("MIR failed")
                o.write(answer(i.message))

        class GribMemoryInput:
            def __init__(self, message):
                self.message = message

        m.Job, m.GribMemoryInput = Job, GribMemoryInput
        m.cache = lambda: None
        old = sys.modules.get("mir")
        sys.modules["mir"] = m

        def undo():
            if old is None:
                sys.modules.pop("mir", None)
            else:
                sys.modules["mir"] = old

        cx.on_exit(undo)


_ANS = {}


def answer(message):
    """the message on the 180x90 grid, each value derived from the sum of the input"""
    import numpy as np
    import earthkit.data as ekd
    from earthkit.data.readers.grib.memory import GribFieldInMemory

    message = bytes(message)
    if message not in _ANS:
        f = GribFieldInMemory.from_buffer(message)
        md = f.metadata().override(gridspec=mod("gridspec").GridSpec.from_dict(IN["x"]))
        v = np.arange(6.0).reshape(3, 2) + float(f.to_numpy(flatten=True)[:3].sum())
        g = ekd.FieldList.from_array(v, md)[0]
        _ANS[message] = ekd.create_encoder("grib").encode(g).to_bytes()
    return _ANS[message]


def messages(cx):
    """the MIR backend: one job for each field, on its own message and with the options of the call"""
    import numpy as np
    import earthkit.data as ekd
    from earthkit.data.readers.grib.memory import GribFieldInMemory

    setup(cx)
    single = cx.p("single")
    n = 1 if single else cx.choice("n", list(range(cx.p("max") + 1)))
    fs, msgs = [], []
    for i in range(n):
        k = cx.choice("k%d" % i, ["a", "b"])
        v = np.arange(float(np.prod(SH[k]))).reshape(SH[k]) * 2 + 10 * i
        f = ekd.FieldList.from_array(v, metadata(k, i))[0]
        msg = ekd.create_encoder("grib").encode(f).to_bytes()
        how = cx.choice("how%d" % i, ["array", "memory", "file"])
        if how == "memory":
            f = GribFieldInMemory.from_buffer(msg)
        elif how == "file":
            p = os.path.join(cx.dir(), "f%d.grib" % i)
            with open(p, "wb") as o:
                o.write(msg)
            f = ekd.from_source("file", p)[0]
        fs.append(f)
        msgs.append(msg)
    fail = cx.choice("fail", [None, 0, n - 1]) if n and cx.p("fail") else None
    rec = Rec(cx, fail)
    kw = {}
    if cx.bool("has.nclosest"):
        kw["nclosest"] = cx.int("nclosest", 1, 9)
    g = {"grid": [180, 90]}
    before = [state(f) for f in fs]
    arg = fs[0] if single else ekd.FieldList.from_fields(fs)
    r, err = cx.try_(mod().regrid, arg, grid=g, interpolation="linear", **kw)
    cx.check(g == {"grid": [180, 90]}, "unmodified", g)
    for f, b in zip(fs, before):
        cx.check(same_state(state(f), b), "unmodified")
    if fail is not None:
        cx.check(err is not None, "rejected")
        return
    cx.check(err is None, "message", repr(err))
    if single:
        r = [r]
    cx.check(len(r) == n, "length", len(r))
    cx.check(len(rec.jobs) == n, "message", len(rec.jobs))
    for i, f in enumerate(r):
        j = rec.jobs[i]
        cx.check(j.opts.get("grid") == g and j.opts.get("interpolation") == "linear", "option", j.opts)
        cx.check("nclosest" not in kw or j.opts.get("nclosest") == kw["nclosest"], "option", j.opts)
        cx.check("nclosest" in kw or j.opts.get("nclosest", 4) == 4, "option", j.opts)
        cx.check(bytes(f.message()) == answer(msgs[i]), "message", [i, len(f.message())])
        md = f.metadata()
        cx.check([md.get(k, None) for k in KEYS] == before[i][0], "metadata", i)
        e = np.arange(6.0) + before[i][2][:3].sum()
        cx.check(np.allclose(f.to_numpy(flatten=True), e), "values", [i, f.to_numpy(flatten=True), e])


HARNESS = {"arrays": arrays, "targets": targets, "messages": messages}


def jobs(tier):
    out = []
    n = 2 if tier == "quick" else 3
    for o in OUT:
        out.append({"h": "arrays", "params": {"out": o, "single": True}})
        out.append({"h": "arrays", "params": {"out": o, "max": n}})
    out.append({"h": "arrays", "params": {"out": "q", "max": 3, "bad": True}})
    out.append({"h": "arrays", "params": {"out": "p", "max": n, "api": "interpolate"}})
    out.append({"h": "arrays", "params": {"out": "p", "max": 2, "bad": True, "api": "interpolate"}})
    out.append({"h": "targets", "params": {}})
    out.append({"h": "messages", "params": {"single": True}})
    out.append({"h": "messages", "params": {"max": n}})
    out.append({"h": "messages", "params": {"max": 2, "fail": True}})
    return out
