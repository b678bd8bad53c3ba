"""C26: regridding an xarray object changes its spatial dimensions only."""
import sys
import types

from symx.ctx import mod

from ._inv import write_inventory

TECHNIQUE = "symbolic execution of the instrumented source + z3 (symbolic field values; layouts as symbolic choices)"
LEVEL_NOTE = (
    "Complete for all field values, for every layout within the bounds. xarray, numpy and mir.Grid are the real libraries; the interpolation "
    "is done by the real precomputed backend with given matrices, or by a recording stand-in for mir.Job."
)
BOUNDS = (
    "DataArrays and Datasets of up to 3 variables with up to 2 further dimensions of size 1..2, the spatial ones in any place; dimension, "
    "auxiliary and scalar coordinates, attributes and names; 12-point inputs (3x4 latitude-longitude, H1); outputs 3x3, 3x2, 3x1, 1x4, 2x1, "
    "a sub-area and H1; input grid from the attributes or the call; chains of two regriddings"
)
OUTSIDE = "dask arrays; a Dataset whose spatial dimensions are not last is only required to be regridded with in_dims given; out_dims"
ASSUMPTIONS = ["xarray, numpy and mir.Grid are correct"]
REQUIRED_UNION = ["values", "dims", "coords", "attrs", "gridspec", "unmodified", "rejected", "spatial", "dtype", "job", "chain"]

LL, HP = {"grid": [90, 90]}, {"grid": "H1"}
# the grids with the coordinates of their points, written out by hand
Z = 41.810314895778596
HLAT = [Z] * 4 + [0.0] * 4 + [-Z] * 4
HLON = [45.0, 135.0, 225.0, 315.0, 0.0, 90.0, 180.0, 270.0, 45.0, 135.0, 225.0, 315.0]
OUT = {
    "ll33": ({"grid": [120, 90]}, [90, 0, -90], [0, 120, 240]),
    "ll32": ({"grid": [180, 90]}, [90, 0, -90], [0, 180]),
    "ll31": ({"grid": [360, 90]}, [90, 0, -90], [0]),
    "row": ({"grid": [30, 30], "area": [60, 10, 60, 100]}, [60], [10, 40, 70, 100]),
    "col": ({"grid": [30, 30], "area": [60, 10, 30, 10]}, [60, 30], [10]),
    "sub": ({"grid": [30, 30], "area": [60, 0, 0, 30]}, [60, 30, 0], [0, 30]),
    "same": (LL, [90, 0, -90], [0, 90, 180, 270]),
    "hp": (HP, HLAT, HLON),
}


def weights(n, m):
    """a matrix no two rows or columns of which are alike"""
    return [[float((7 * i + 3 * j * j + i * j) % 11 - 4) if (i + j) % 3 else 0.0 for j in range(12)] for i in range(n)] if m == "linear" else [
        [float(2 * i + 1) if j == (5 * i + 1) % 12 else 0.0 for j in range(12)] for i in range(n)
    ]


def shape_of(name):
    g, lat, lon = OUT[name]
    return (len(lat),) if name == "hp" else (len(lat), len(lon))


def expected(cx, flat, name, m):
    import numpy as np

    sh = shape_of(name)
    n = int(np.prod(sh))
    out = np.empty(n, dtype=object)
    for i, r in enumerate(weights(n, m)):
        acc = 0.0
        for j, w in enumerate(r):
            acc = acc + w * flat[j]
        out[i] = acc
    return out.reshape(sh)


def near(cx, a, b):
    return cx.eq_array(a.astype(float), b.astype(float)) if not cx.symbolic else cx.eq_array(a, b)


SP = {"ll": (["latitude", "longitude"], (3, 4)), "hp": (["values"], (12,)), "yx": (["y", "x"], (3, 4))}


def variable(cx, xr, tag, kind, extra, place, withco, dtype=None):
    """a DataArray with the spatial dimensions at a given place among the others"""
    import numpy as np

    sdims, ssh = SP[kind]
    sizes = {"t": 2, "lev": 1}
    names = list(extra)
    dims = names[:place] + sdims + names[place:]
    sz = {**{n: sizes[n] for n in names}, **dict(zip(sdims, ssh))}
    if dtype:
        v = np.arange(int(np.prod([sz[d] for d in dims]))).reshape([sz[d] for d in dims]).astype(dtype) * 3 - 5
    else:
        v = cx.array(tag, tuple(sz[d] for d in dims))
    co = {}
    if withco:
        if "t" in names:
            co["t"] = [11, 7]
            co["aux"] = ("t", ["b", "a"])
        if "lev" in names:
            co["lev"] = [850]
        co["height"] = 2.0
        if kind == "ll":
            co["latitude"] = [90, 0, -90]
            co["longitude"] = [0, 90, 180, 270]
            co["mask"] = ("latitude", [1, 2, 3])
        elif kind == "hp":
            co["latitude"], co["longitude"] = ("values", HLAT), ("values", HLON)
        else:
            co["latitude"] = (("y", "x"), np.zeros((3, 4)))
            co["longitude"] = (("y", "x"), np.ones((3, 4)))
    return xr.DataArray(v, dims=dims, coords=co, attrs={"units": "K", tag: [1, 2]}, name=tag), names


def snap(xr, o):
    vs = {"": o} if isinstance(o, xr.DataArray) else dict(o.data_vars)
    return (
        dict(o.attrs),
        {k: (v.dims, v.shape, v.dtype, v.name, dict(v.attrs), v.values.copy(), {c: (x.dims, x.values.copy()) for c, x in v.coords.items()}) for k, v in vs.items()},
    )


def alike(a, b):
    """the same before and after, the symbolic values by identity"""
    import numpy as np

    if a[0] != b[0] or list(a[1]) != list(b[1]):
        return False
    for k in a[1]:
        x, y = a[1][k], b[1][k]
        if x[:5] != y[:5] or list(x[6]) != list(y[6]):
            return False
        if not all(p is q or (not hasattr(p, "e") and p == q) for p, q in zip(x[5].ravel(), y[5].ravel())):
            return False
        if not all(x[6][c][0] == y[6][c][0] and np.array_equal(x[6][c][1], y[6][c][1]) for c in x[6]):
            return False
    return True


def check_one(cx, xr, res, da, names, kind, out, m, gridspec, info):
    import numpy as np

    g, lat, lon = OUT[out]
    odims = ["values"] if out == "hp" else ["latitude", "longitude"]
    cx.check(list(res.dims) == names + odims, "dims", [info, list(res.dims)])
    cx.check(res.name == da.name, "dims", [info, res.name])
    sdims = SP[kind][0]
    src = da.transpose(*names, *sdims).values
    lead = src.shape[: len(names)]
    for idx in np.ndindex(*lead):
        e = expected(cx, src[idx].ravel(), out, m)
        r = res.values[idx]
        cx.check(r.shape == e.shape and near(cx, r, e), "values", [info, idx])
    # everything that does not lie on the spatial dimensions is kept
    keep = {c for c in da.coords if not set(da.coords[c].dims) & set(sdims) and c not in ("latitude", "longitude")}
    cx.check(set(res.coords) == keep | {"latitude", "longitude"}, "coords", [info, sorted(res.coords)])
    for c in keep:
        cx.check(res.coords[c].dims == da.coords[c].dims and np.array_equal(res.coords[c].values, da.coords[c].values), "coords", [info, c])
    cx.check(tuple(res.latitude.dims) == tuple(odims[:1]) and tuple(res.longitude.dims) == tuple(odims[-1:]), "spatial", info)
    cx.check(np.allclose(res.latitude.values, lat) and np.allclose(res.longitude.values, lon), "spatial", [info, res.latitude.values, res.longitude.values])
    # xarray may be set up to drop attributes, but not to change them
    for k, v in res.attrs.items():
        if k != "gridspec":
            cx.check(k in da.attrs and da.attrs[k] == v, "attrs", [info, k])
    if xr.get_options()["keep_attrs"] is not False:
        cx.check(set(res.attrs) - {"gridspec"} == set(da.attrs) - {"gridspec"}, "attrs", [info, sorted(res.attrs)])
    if "gridspec" in res.attrs:
        cx.check(dict(res.attrs["gridspec"]) == gridspec, "gridspec", [info, res.attrs["gridspec"]])


def inventory(cx, outs, ins=(LL, HP)):
    es = []
    for gi in ins:
        for o in outs:
            g, lat, lon = OUT[o]
            sh = shape_of(o)
            n = 1
            for s in sh:
                n *= s
            for m in ("linear", "nearest-neighbour"):
                es.append(
                    {
                        "name": "m%d" % len(es),
                        "input": dict(gi, shape=[12] if gi is HP else [3, 4]),
                        "output": dict(g, shape=list(sh)),
                        "method": m,
                        "weights": weights(n, m),
                        "wshape": (n, 12),
                    }
                )
    return write_inventory(cx, es)


def setup(cx):
    import xarray as xr

    mod().config.autosave = False
    mod().config.set("weights-memory-cache-policy", "off")
    return xr


def dataarray(cx):
    xr = setup(cx)
    kind, out = cx.p("kind"), cx.p("out")
    extra = cx.choice("extra", [[], ["t"], ["t", "lev"], ["lev", "t"]])
    place = cx.choice("place", list(range(len(extra) + 1)))
    da, names = variable(cx, xr, "q", kind, extra, place, cx.choice("coords", [True, False]))
    m = cx.choice("m", ["linear", "nearest-neighbour"])
    inv = inventory(cx, [out])
    gi = HP if kind == "hp" else LL
    kw = {"interpolation": m, "backend": "precomputed", "inventory": inv}
    if cx.choice("spec", ["attrs", "call"]) == "attrs":
        da.attrs["gridspec"] = dict(gi)
    else:
        kw["grid_spec"] = dict(gi)
    must = kind == "yx" or place != len(extra)
    given = must and cx.choice("in_dims", [True, False])
    if given:
        kw["in_dims"] = list(SP[kind][0]) if kind != "hp" else cx.choice("str", ["values", ["values"]])
    before = snap(xr, da)
    g = OUT[out][0]
    info = [kind, out, extra, place, m]
    r, err = cx.try_(mod().regrid, da, grid=dict(g), **kw)
    cx.check(alike(before, snap(xr, da)), "unmodified", info)
    if must and not given:
        cx.check(isinstance(err, ValueError), "rejected", [info, repr(err)])
        return
    cx.check(err is None, "values", [info, repr(err)])
    cx.check(isinstance(r, xr.DataArray), "dims", info)
    check_one(cx, xr, r, da, names, kind, out, m, g, info)


def dataset(cx):
    xr = setup(cx)
    kind, out = cx.p("kind"), cx.p("out")
    E = [[], ["t"], ["t", "lev"]]
    vs = {}
    order = cx.choice("order", [("b", "a"), ("a", "b"), ("a", "b", "c")])
    eb = cx.choice("eb", E)
    for n in order:
        ex = {"a": ["t"], "b": eb, "c": ["lev"]}[n]
        vs[n] = variable(cx, xr, n, kind, ex, len(ex), cx.p("coords"))
    # the names within a Dataset are its own
    ds = xr.Dataset({n: v[0] for n, v in vs.items()})
    m = cx.choice("m", ["linear", "nearest-neighbour"])
    inv = inventory(cx, [out])
    gi = HP if kind == "hp" else LL
    kw = {"interpolation": m, "backend": "precomputed", "inventory": inv, "in_dims": list(SP[kind][0])}
    if cx.choice("spec", ["attrs", "call"]) == "attrs":
        ds.attrs["gridspec"] = dict(gi)
        for n in order:
            ds.variables[n].attrs["gridspec"] = dict(gi)
    else:
        kw["grid_spec"] = dict(gi)
    ds.attrs["title"] = "t"
    before = snap(xr, ds)
    g = OUT[out][0]
    info = [kind, out, order, m]
    r, err = cx.try_(mod().regrid, ds, grid=dict(g), **kw)
    cx.check(alike(before, snap(xr, ds)), "unmodified", info)
    cx.check(err is None, "values", [info, repr(err)])
    cx.check(isinstance(r, xr.Dataset) and list(r.data_vars) == list(order), "dims", [info, list(r.data_vars)])
    for n in order:
        check_one(cx, xr, r[n], ds[n], vs[n][1], kind, out, m, g, info + [n])


def plain(cx):
    """a variable without the spatial dimensions is left alone, or the Dataset rejected"""
    import numpy as np

    xr = setup(cx)
    a, names = variable(cx, xr, "a", "ll", ["t"], 1, True)
    ds = xr.Dataset({"a": a, "n": ("t", np.array([4, 5]))})
    inv = inventory(cx, ["ll32"], ins=(LL,))
    r, err = cx.try_(
        mod().regrid, ds, grid=dict(OUT["ll32"][0]), grid_spec=dict(LL), in_dims=["latitude", "longitude"], interpolation="linear", backend="precomputed", inventory=inv
    )
    if err is not None:
        cx.check(isinstance(err, ValueError), "rejected", repr(err))
        return
    cx.check(list(r["n"].dims) == ["t"] and list(r["n"].values) == [4, 5], "coords", "n")
    check_one(cx, xr, r["a"], ds["a"], names, "ll", "ll32", "linear", OUT["ll32"][0], "a")


def missing(cx):
    """no grid for the input or the output is an error"""
    xr = setup(cx)
    da, names = variable(cx, xr, "a", "ll", ["t"], 1, True)
    inv = inventory(cx, ["ll32"], ins=(LL,))
    kw = {"interpolation": "linear", "backend": "precomputed", "inventory": inv}
    what = cx.choice("what", ["in", "out", "pair", "ds"])
    g = dict(OUT["ll32"][0])
    if what == "out":
        kw["grid_spec"] = dict(LL)
        g = None
    elif what == "pair":
        kw["grid_spec"] = dict(LL)
        g = {"grid": [60, 60]}
    elif what == "ds":
        da = xr.Dataset({"a": da})
    r, err = cx.try_(mod().regrid, da, grid=g, **kw)
    cx.check(isinstance(err, ValueError), "rejected", [what, repr(err)])


def kinds(cx):
    """the type of the result holds the interpolated values"""
    import numpy as np

    xr = setup(cx)
    dt = cx.choice("dtype", ["int64", "int16", "uint8", "float32", "float64"])
    da, names = variable(cx, xr, "a", "ll", ["t"], 1, True, dtype=dt)
    half = {"name": "h", "input": dict(LL, shape=[3, 4]), "output": dict(OUT["ll32"][0], shape=[3, 2]), "method": "linear"}
    half["weights"] = [[0.5 if j in (i, 11 - i) else 0.25 if j == 5 else 0.0 for j in range(12)] for i in range(6)]
    half["wshape"] = (6, 12)
    inv = write_inventory(cx, [half])
    r, err = cx.try_(mod().regrid, da, grid=dict(OUT["ll32"][0]), grid_spec=dict(LL), interpolation="linear", backend="precomputed", inventory=inv)
    cx.check(err is None, "dtype", [dt, repr(err)])
    w = np.array(half["weights"])
    for t in range(2):
        e = (w @ da.values[t].ravel().astype(float)).reshape(3, 2)
        cx.check(np.allclose(r.values[t].astype(float), e), "dtype", [dt, t, r.values[t], e])


def chain(cx):
    """the result knows its grid: regridding it again starts from there"""
    import numpy as np

    xr = setup(cx)
    kind = cx.p("kind")
    gi, go = (LL, HP) if kind == "ll" else (HP, LL)
    mid = "hp" if kind == "ll" else "same"
    da, names = variable(cx, xr, "q", kind, ["t"], 1, True)
    da.attrs["gridspec"] = dict(gi)
    o = da if cx.p("obj") == "da" else xr.Dataset({"q": da}, attrs={"gridspec": dict(gi)})
    # two pairs of matrices, so that it matters which grid is taken for the input
    inv = inventory(cx, ["hp", "same", "ll32"])
    kw = {"interpolation": "linear", "backend": "precomputed", "inventory": inv}
    r = mod().regrid(o, grid=dict(go), **kw)
    mid_spec = dict(OUT[mid][0])
    d = r if cx.p("obj") == "da" else r["q"]
    cx.check("gridspec" not in d.attrs or dict(d.attrs["gridspec"]) == mid_spec, "chain", d.attrs.get("gridspec"))
    cx.check("gridspec" not in r.attrs or dict(r.attrs["gridspec"]) == mid_spec, "chain", r.attrs.get("gridspec"))
    cx.check(d.attrs.get("gridspec") is not OUT[mid][0], "chain")


class Rec:
    """stand-in for the MIR library, with the real grids"""

    def __init__(self, cx, outname, spec):
        import numpy as np
        import mir as real

        self.jobs = []
        rec = self
        m = types.ModuleType("mir")

        class Job:
            def __init__(self):
                self.opts = {}
                rec.jobs.append(self)

            def set(self, k, v):
                self.opts[k] = v
                return self

            def execute(self, i, o):
                self.input = i
                o.result = expected(cx, i.values.ravel(), outname, "linear")
                if not cx.symbolic:
                    o.result = o.result.astype(float)
                o.spec = spec

        class ArrayInput:
            def __init__(self, values, spec=None):
                self.values, self.spec = values, spec

        class ArrayOutput:
            def values(self):
                return self.result

        m.Job, m.ArrayInput, m.ArrayOutput, m.Grid = Job, ArrayInput, ArrayOutput, real.Grid
        m.cache = lambda: None
        sys.modules["mir"] = m
        cx.on_exit(lambda: sys.modules.__setitem__("mir", real))


def mirjob(cx):
    """each slice goes to MIR on its own, from its grid; the coordinates are those of the grid MIR produced"""
    import numpy as np

    xr = setup(cx)
    which = cx.p("which")
    gi, kind = {"ll": (LL, "ll"), "hp": (HP, "hp"), "sub": ({"grid": [30, 30], "area": [60, 10, 0, 100]}, "ll")}[which]
    extra = cx.choice("extra", [[], ["t"], ["lev", "t"]])
    da, names = variable(cx, xr, "q", kind, extra, len(extra), False)
    if cx.choice("spec", ["attrs", "call"]) == "attrs":
        da.attrs["gridspec"] = dict(gi)
        kw = {}
    else:
        kw = {"grid_spec": dict(gi)}
    ask = {"grid": [30, 30], "area": [70, -5, -10, 50]} if cx.p("snap") else dict(OUT["sub"][0])
    rec = Rec(cx, "sub", dict(OUT["sub"][0]))
    for k in ("nclosest", "distance"):
        if cx.bool("has." + k):
            kw[k] = cx.int(k, 1, 9)
    before = snap(xr, da)
    r, err = cx.try_(mod().regrid, da, grid=dict(ask), **kw)
    cx.check(err is None, "job", repr(err))
    cx.check(alike(before, snap(xr, da)), "unmodified")
    check_one(cx, xr, r, da, names, kind, "sub", "linear", OUT["sub"][0], [which, extra])
    from mir import Grid

    want = Grid(**gi)
    for j in rec.jobs:
        cx.check(j.opts["grid"] == {"grid": [30, 30]} and j.opts.get("area") == "/".join(map(str, ask["area"])), "job", j.opts)
        for k in ("nclosest", "distance"):
            cx.check((k in kw and j.opts.get(k) == kw[k]) or (k not in kw), "job", [k, j.opts])
        # the grid MIR is told is the grid the data is on
        g = Grid(**dict(j.input.spec))
        cx.check(tuple(g.shape) == tuple(want.shape) and all(np.allclose(p, q) for p, q in zip(g.to_latlons(), want.to_latlons())), "job", j.input.spec)


HARNESS = {"dataarray": dataarray, "dataset": dataset, "plain": plain, "missing": missing, "kinds": kinds, "chain": chain, "mirjob": mirjob}


def jobs(tier):
    out = []
    P = [("ll", "ll32"), ("ll", "hp"), ("ll", "same"), ("hp", "ll33"), ("hp", "hp"), ("yx", "row"), ("ll", "col"), ("hp", "ll31")]
    if tier != "quick":
        P = [(k, o) for k in SP for o in OUT]
    for k, o in P:
        out.append({"h": "dataarray", "params": {"kind": k, "out": o}})
    for k, o in P[:4] if tier == "quick" else P:
        out.append({"h": "dataset", "params": {"kind": k, "out": o, "coords": k != "hp"}})
    for h in ("plain", "missing", "kinds"):
        out.append({"h": h, "params": {}})
    for k in ("ll", "hp"):
        for o in ("da", "ds"):
            out.append({"h": "chain", "params": {"kind": k, "obj": o}})
    for w in ("ll", "hp", "sub"):
        for s in (0, 1):
            out.append({"h": "mirjob", "params": {"which": w, "snap": s}})
    return out
