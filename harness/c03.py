"""C03: regular lat-lon gridspecs match iff they denote the same points."""
from symx.ctx import mod

from ._grids import LOOSE, SCAN, TIGHT, global_ew, mod360_near, near, off_wrap

TECHNIQUE = "symbolic execution of the instrumented source + z3 (reals with rounding slack), differential vs a reference"
LEVEL_NOTE = (
    "Complete for all values within the stated bounds, modulo dead bands around the comparison tolerances; trusts z3, "
    "the instrumentation and the per-operation rounding model of IEEE doubles."
)
BOUNDS = (
    "increments in [0.05, 30] deg, latitudes in [-90, 90], longitudes in [-360, 720) (symbolic reals with IEEE rounding "
    "slack, and symbolic integers); shape, scan and global keys symbolic ints; lists or tuples; areas omitted for every "
    "documented global increment pair"
)
OUTSIDE = "coordinates inside the dead bands (see ASSUMPTIONS); longitudes outside [-360, 720); NaN/inf"
ASSUMPTIONS = [
    "dead bands: increments differing by 1e-6..6e-4, coordinates differing by 5e-9..2e-8, and longitudes within 1e-6 of "
    "(but not at) a multiple of 360 are outside the claim",
    "doubles are modelled as reals plus a per-operation rounding error |e| <= 2^-53 * magnitude bound, sign preserving",
]
REQUIRED_UNION = ["match", "no-match"]


def spec(cx, tag):
    keys = cx.p("k" + tag)
    if "fixgrid" in keys:
        d = {"grid": list(cx.p("grid"))}
    else:
        d = {"grid": [cx.float(tag + ".dx", 0.05, 30), cx.float(tag + ".dy", 0.05, 30)]}
    lon = cx.p("w" + tag, (-360, 720))
    if "area" in keys:
        d["area"] = [
            cx.float(tag + ".n", -90, 90),
            cx.float(tag + ".w", *lon),
            cx.float(tag + ".s", -90, 90),
            cx.float(tag + ".e", -360, 720),
        ]
    if "intarea" in keys:
        d["area"] = [90, cx.int(tag + ".w", *lon), -90, cx.int(tag + ".e", -360, 720)]
    if "fixarea" in keys:
        d["area"] = [60, 10, -60, 50]
    if "shape" in keys:
        d["shape"] = [cx.int(tag + ".ni", 1, 4000), cx.int(tag + ".nj", 1, 8000)]
    if "scan" in keys:
        for k in SCAN:
            d[k] = cx.int(tag + "." + k, 0, 1)
    if "global" in keys:
        d["global"] = cx.int(tag + ".global", 0, 1)
    if "type" in keys:
        d["type"] = "regular_ll"
    if "tuple" in keys:
        d = {k: (tuple(v) if isinstance(v, list) else v) for k, v in d.items()}
    if "reorder" in keys:
        d = dict(reversed(list(d.items())))
    return d


def documented_global_area(dx, dy):
    """Largest row/column set of a global grid anchored at the equator and Greenwich."""
    from fractions import Fraction as F

    fx, fy = F(str(dx)), F(str(dy))
    n = (F(90) // fy) * fy
    if (F(360) % fx) == 0:
        e = 360 - fx
    else:
        e = (F(360) // fx) * fx
    return [float(n), 0, -float(n), float(e)]


def area_of(d):
    if "area" in d:
        return d["area"]
    return documented_global_area(*d["grid"])


def oracle(cx, a, b):
    da, db = a["grid"], b["grid"]
    if "area" in a or "area" in b:
        same = [cx.and_(*[near(cx, x, y, 1e-6) for x, y in zip(da, db)])]
    else:
        # no areas: each denotes the global grid of exactly its increments
        same = [cx.and_(*[x == y for x, y in zip(da, db)])]
    diff = [cx.or_(*[cx.not_(near(cx, x, y, 6e-4)) for x, y in zip(da, db)])]
    pre = []
    if "shape" in a and "shape" in b:
        s = cx.and_(*[x == y for x, y in zip(a["shape"], b["shape"])])
        same.append(s)
        diff.append(cx.not_(s))
    for k in SCAN:
        s = a.get(k, 0) == b.get(k, 0)
        same.append(s)
        diff.append(cx.not_(s))
    if "area" in a or "area" in b:
        A, B = area_of(a), area_of(b)
        ga = dict(a) if "area" in a else {"global": 1}
        gb = dict(b) if "area" in b else {"global": 1}
        area_same = cx.and_(*[near(cx, x, y, TIGHT) for x, y in zip(A, B)])
        ns_same = cx.and_(*[near(cx, A[i], B[i], TIGHT) for i in (0, 2)])
        ns_diff = cx.or_(*[cx.not_(near(cx, A[i], B[i], LOOSE)) for i in (0, 2)])
        g_yes = cx.and_(global_ew(cx, ga, A, da[0], TIGHT), global_ew(cx, gb, B, db[0], TIGHT))
        g_no = cx.or_(
            cx.not_(global_ew(cx, ga, A, da[0], LOOSE)),
            cx.not_(global_ew(cx, gb, B, db[0], LOOSE)),
        )
        dw = A[1] - B[1]
        w_same = mod360_near(cx, dw, TIGHT)
        w_diff = cx.not_(mod360_near(cx, dw, LOOSE))
        same.append(cx.or_(area_same, cx.and_(ns_same, g_yes, w_same)))
        e_diff = cx.not_(mod360_near(cx, A[3] - B[3], LOOSE))
        diff.append(cx.or_(ns_diff, w_diff, cx.and_(g_no, e_diff)))
        pre = [off_wrap(cx, x, 1e-6) for x in (A[1], B[1], A[3], B[3])]
    return cx.and_(*same), cx.or_(*diff), cx.and_(*pre)


def match(cx):
    G = mod("gridspec").GridSpec
    a = spec(cx, "a")
    b = spec(cx, "b")
    must, mustnot, pre = cx.memo("oracle", lambda: oracle(cx, a, b))
    if pre is not True:
        cx.assume(pre)
    ga, gb = G.from_dict(a), G.from_dict(b)
    if cx.p("swap"):
        ga, gb = gb, ga
    r = ga == gb
    if r:
        cx.check(cx.not_(mustnot), "match", {"r": True})
    else:
        cx.check(cx.not_(must), "no-match", {"r": False})
    cx.sample(equal=bool(r))


HARNESS = {"match": match}

GRIDS = (0.1, 0.125, 0.15, 0.2, 0.25, 0.3, 0.4, 0.5, 0.6, 0.7, 0.75, 0.8, 0.9, 1, 1.2, 1.25, 1.4, 1.5, 1.6, 1.8, 2, 2.5, 5, 10)


def jobs(tier):
    out = []

    def job(ka, kb, **kw):
        out.append({"h": "match", "fresh": "gridspec", "params": {"ka": ka.split(), "kb": kb.split(), **kw}})

    R = [(-360, -1e-3), (0, 359.999), (360, 719.999)]
    for wa in R:
        for wb in R:
            if tier == "thorough" or (wa, wb) in ((R[1], R[1]), (R[0], R[1]), (R[1], R[2])):
                job("area", "area", wa=wa, wb=wb)
    job("fixarea shape scan tuple", "fixarea shape scan type reorder")
    job("fixarea shape scan", "fixarea")
    job("shape scan", "shape scan tuple")
    for w in R if tier == "thorough" else R[1:2]:
        if tier == "thorough":
            job("area global", "area", wa=w, wb=(0, 359.999))
        job("area global", "area global shape", wa=w, wb=(0, 359.999))
    job("fixgrid intarea tuple", "fixgrid intarea reorder", grid=(5, 5), wa=(0, 359), wb=(-360, 719))
    out[-1]["fp"] = "real"  # integer degrees plus 360.0 are exact
    for g in GRIDS:
        job("fixgrid", "fixgrid area", grid=(g, g))
    if tier == "thorough":
        for g in GRIDS:
            job("fixgrid", "fixgrid area", grid=(g, g), swap=1)
        for wa in R:
            for wb in R:
                job("area type", "area tuple", wa=wa, wb=wb, swap=1)
    return out
