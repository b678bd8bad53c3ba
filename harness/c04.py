"""C04: reduced Gaussian gridspecs match iff they denote the same grid."""
from symx.ctx import mod

from ._grids import SCAN, global_ew, mod360_near, near, off_wrap

TECHNIQUE = "symbolic execution of the instrumented source + z3 (reals with rounding slack), differential vs a reference"
LEVEL_NOTE = (
    "Complete for all values within the stated bounds, modulo dead bands around the comparison tolerances; trusts z3, "
    "the instrumentation and the per-operation rounding model of IEEE doubles."
)
BOUNDS = (
    "areas with latitudes in [-90, 90] and longitudes in [-360, 720) as symbolic reals for O32, N48, O1280 and N320; grid "
    "names as symbolic strings of a letter and 1-3 digits; scan/shape/global keys symbolic"
)
OUTSIDE = "coordinates inside the dead bands (see ASSUMPTIONS); grid numbers above 999 outside the four named ones"
ASSUMPTIONS = [
    "dead bands: coordinates differing by 0.11..0.13 deg, spans within 5e-9..2e-8 of the full circle, longitudes "
    "closer than 0.25 deg to (but not at) a multiple of 360, and northern or southern edges "
    "strictly between the first two rows of the grid are outside the claim",
    "doubles are modelled as reals plus a per-operation rounding error",
]
REQUIRED_UNION = ["match", "no-match"]


def spec(cx, tag):
    keys = cx.p("k" + tag)
    d = {}
    if "name" in keys:
        letter = cx.choice(tag + ".letter", ["O", "o", "N", "n"])
        digits = cx.str(tag + ".digits", 1, cx.p("nd", 2), lo=48, hi=57)
        d["grid"] = letter + digits
    else:
        d["grid"] = cx.p("grid" + tag)
    lon = cx.p("w" + tag, (-360, 720))
    if "area" in keys:
        d["area"] = [
            cx.float(tag + ".n", -90, 90),
            cx.float(tag + ".w", *lon),
            cx.float(tag + ".s", -90, 90),
            cx.float(tag + ".e", -360, 720),
        ]
    if "shape" in keys:
        d["shape"] = [cx.int(tag + ".ni", 1, 4000)]
    if "scan" in keys:
        for k in SCAN:
            d[k] = cx.int(tag + "." + k, 0, 1)
    if "global" in keys:
        d["global"] = cx.int(tag + ".global", 0, 1)
    if "type" in keys:
        d["type"] = "reduced_gg"
    return d


def dx_of(name):
    n = int(name[1:])
    return 360 / (4 * n + 16) if name[0] in "Oo" else 360 / (4 * n)


def global_ns(cx, d, area, d_lat):
    """Both outermost rows are covered; their distance from the poles is 68.9 / N degrees and
    that of the next rows is 158 / N degrees."""
    flagged = d["global"] == 1 if "global" in d else False
    return cx.or_(flagged, cx.and_(area[0] >= 90 - d_lat, area[2] <= d_lat - 90))


def oracle(cx, a, b):
    def lower(s):
        return s.lower()

    s = lower(a["grid"]) == lower(b["grid"])
    same, diff, pre = [s], [cx.not_(s)], []
    if "shape" in a and "shape" in b:
        s = a["shape"][0] == b["shape"][0]
        same.append(s)
        diff.append(cx.not_(s))
    for k in SCAN:
        s = a.get(k, 0) == b.get(k, 0)
        same.append(s)
        diff.append(cx.not_(s))
    if "area" in a or "area" in b:
        A, B = a.get("area", [90, 0, -90, 360]), b.get("area", [90, 0, -90, 360])
        area_same = cx.and_(*[near(cx, x, y, 0.11) for x, y in zip(A, B)])
        ns_diff = cx.or_(*[cx.not_(near(cx, A[i], B[i], 0.13)) for i in (0, 2)])
        e_diff = cx.not_(mod360_near(cx, A[3] - B[3], 0.13))
        da, db = dx_of(a["grid"]), dx_of(b["grid"])
        na, nb = int(a["grid"][1:]), int(b["grid"][1:])
        g_yes = cx.and_(
            global_ew(cx, a, A, da, 5e-9),
            global_ew(cx, b, B, db, 5e-9),
            global_ns(cx, a, A, 75 / na),
            global_ns(cx, b, B, 75 / nb),
        )
        g_no = cx.or_(
            cx.not_(global_ew(cx, a, A, da, 2e-8)),
            cx.not_(global_ew(cx, b, B, db, 2e-8)),
            cx.not_(global_ns(cx, a, A, 150 / na)),
            cx.not_(global_ns(cx, b, B, 150 / nb)),
        )
        dw = A[1] - B[1]
        w_same = mod360_near(cx, dw, 0.11)
        w_diff = cx.not_(mod360_near(cx, dw, 0.13))
        same.append(cx.or_(area_same, cx.and_(g_yes, w_same)))
        diff.append(cx.or_(w_diff, cx.and_(g_no, cx.or_(ns_diff, e_diff))))
        pre = [off_wrap(cx, x, 0.25) for x in (A[1], B[1], A[3], B[3])]
    return cx.and_(*same), cx.or_(*diff), cx.and_(*pre) if pre else True


def match(cx):
    G = mod("gridspec").GridSpec
    a, b = spec(cx, "a"), spec(cx, "b")
    if "name" in cx.p("ka"):
        must, mustnot, pre = oracle(cx, a, b)
    else:
        must, mustnot, pre = cx.memo("oracle", lambda: oracle(cx, a, b))
    if pre is not True:
        cx.assume(pre)
    r = G.from_dict(a) == G.from_dict(b)
    if r:
        cx.check(cx.not_(mustnot), "match", {"r": True})
    else:
        cx.check(cx.not_(must), "no-match", {"r": False})
    cx.sample(equal=bool(r))


HARNESS = {"match": match}


def jobs(tier):
    out = []

    def job(ka, kb, **kw):
        out.append({"h": "match", "fresh": "gridspec", "params": {"ka": ka.split(), "kb": kb.split(), **kw}})

    R = [(-360, -1e-3), (0, 359.999), (360, 719.999)]
    pairs = [("O32", "o32"), ("N48", "N48")]
    if tier == "thorough":
        pairs += [("O1280", "O1280"), ("n320", "N320"), ("O32", "N32")]
    for ga, gb in pairs:
        for wa in R if tier == "thorough" or ga == "O32" else R[1:2]:
            for wb in R if tier == "thorough" else R[:2] if ga == "O32" else R[:1]:
                if tier == "thorough" or (wa, wb) in ((R[1], R[1]), (R[1], R[0]), (R[2], R[1])):
                    for h in (wb,) if wa != wb else ((wb[0], wb[0] + 180), (wb[0] + 180, wb[1])):
                        job("area", "area", grida=ga, gridb=gb, wa=wa, wb=h)
    for ga, gb in pairs:
        if ga == "O32" or tier == "thorough":
            for w in ((0, 180), (180, 359.999)) if tier == "thorough" else ((0, 0), (300, 359.999)):
                job("area global", "area shape", grida=ga, gridb=gb, wa=w, wb=R[1])
        job("area global scan", "", grida=ga, gridb=gb)
        job("", "area global", grida=ga, gridb=gb)
    job("area", "area", grida="O32", gridb="N32", wa=R[1], wb=R[1])
    job("shape scan global", "shape scan type", grida="O1280", gridb="O1280")
    job("name", "name", nd=3 if tier == "thorough" else 2)
    job("name scan shape", "name type", nd=2)
    out.sort(key=lambda j: ("wa" not in j["params"], j["params"].get("wa") != j["params"].get("wb")))  # the longest first
    return out
