"""C05: classification and matching of named grids (reduced Gaussian, HEALPix, ORCA)."""
from symx.ctx import mod

TECHNIQUE = "symbolic execution of the instrumented source + z3 (symbolic strings), differential vs a reference grammar"
LEVEL_NOTE = "Complete for all strings within the stated lengths; trusts z3, the instrumentation and the regex/str models (validated by replay)."
BOUNDS = (
    "grid names: every printable-ASCII string of up to 5 (thorough 7) characters, ORCA names with 1-3 symbolic digits, a symbolic "
    "point letter and optional 'e'; order values: ring, nested, absent, 'ordering' alias, any string of up to 6 characters"
)
OUTSIDE = "longer names; non-ASCII text; type given explicitly but contradicting the grid"
ASSUMPTIONS = ["a name that merely starts like a known family (e.g. 'O32x') may be classified or rejected, but never matches another name"]
REQUIRED_UNION = ["inferred", "rejected", "junk", "match", "no-match", "bad-order"]


def digits(cx, s):
    return cx.and_(*[cx.and_(ord_(c) >= 48, ord_(c) <= 57) for c in s]) if len(s) else False


def ord_(c):
    from symx import hooks

    return hooks.b_ord(c)


def one_of(cx, c, opts):
    return cx.or_(*[c == o for o in opts])


def orca_name(cx, tag, nd):
    e = cx.choice(tag + ".e", ["", "e"])
    d = cx.str(tag + ".digits", 1, nd, lo=48, hi=57)
    letter = cx.str(tag + ".letter", 1, 1)
    return e + "ORCA" + d + "_" + letter, letter


def infer(cx):
    """untyped names: the family is decided by the documented grammar"""
    G = mod("gridspec").GridSpec
    s = cx.str("s", 1, cx.p("n"))
    fam = {}
    if len(s) > 1:
        rest, first = s[1:], s[0]
        dig = digits(cx, rest)
        fam["reduced_gg"] = cx.and_(one_of(cx, first, "OoNn"), dig)
        fam["healpix"] = cx.and_(one_of(cx, first, "Hh"), dig)
        # a family letter followed by a digit, then something else
        junk = cx.and_(
            one_of(cx, first, "OoNnHh"), cx.and_(ord_(s[1]) >= 48, ord_(s[1]) <= 57), cx.not_(dig)
        )
    else:
        junk = False
    g, err = cx.try_(G.from_dict, {"grid": s})
    if err is not None:
        cx.check(isinstance(err, ValueError), "rejected-error-type", type(err).__name__)
        cx.check(cx.not_(cx.or_(*fam.values())) if fam else True, "rejected")
    else:
        for name, cond in fam.items():
            if g["type"] == name:
                cx.check(cx.or_(cond, junk), "inferred")
                cx.check(g["grid"] == s, "grid-kept")
                break
        else:
            cx.fail("classified-out-of-grammar", g["type"])
    if junk is not False and junk and err is None:
        # must not be confused with the clean name it starts with
        i = 2
        while i < len(s) and (cx.and_(ord_(s[i]) >= 48, ord_(s[i]) <= 57)):
            i += 1
        h = G.from_dict({"grid": s[:i]})
        cx.check(not (g == h), "junk")
        cx.check(not (h == g), "junk")


def orca(cx):
    G = mod("gridspec").GridSpec
    n1, l1 = orca_name(cx, "a", cx.p("nd"))
    ok = one_of(cx, l1, "FTUV")
    g, err = cx.try_(G.from_dict, {"grid": n1})
    if err is not None:
        cx.check(isinstance(err, ValueError), "rejected-error-type", type(err).__name__)
        cx.check(cx.not_(ok), "rejected")
        return
    cx.check(cx.and_(ok, g["type"] == "orca"), "inferred")
    n2, l2 = orca_name(cx, "b", cx.p("nd"))
    cx.assume(one_of(cx, l2, "FTUV"))
    h = G.from_dict({"grid": n2})
    same = n1.lower() == n2.lower()
    if g == h:
        cx.check(same, "match")
    else:
        cx.check(cx.not_(same), "no-match")


def healpix_spec(cx, tag, nd):
    letter = cx.choice(tag + ".letter", ["H", "h"])
    d = cx.str(tag + ".digits", 1, nd, lo=48, hi=57)
    # the documented grid number is a positive integer
    cx.assume(cx.or_(*[ord_(c) > 48 for c in d]))
    spec = {"grid": letter + d}
    key = cx.choice(tag + ".key", [None, "order", "ordering"])
    order = "ring"
    if key:
        order = cx.choice(tag + ".order", ["ring", "nested"])
        spec[key] = order
    if cx.choice(tag + ".typed", [False, True]):
        spec["type"] = "healpix"
    return spec, order


def healpix(cx):
    G = mod("gridspec").GridSpec
    a, oa = healpix_spec(cx, "a", cx.p("nd"))
    b, ob = healpix_spec(cx, "b", cx.p("nd"))
    same = cx.and_(a["grid"].lower() == b["grid"].lower(), oa == ob)
    if G.from_dict(a) == G.from_dict(b):
        cx.check(same, "match")
    else:
        cx.check(cx.not_(same), "no-match")


def healpix_order(cx):
    """an order that is neither ring nor nested is never taken for a valid one"""
    G = mod("gridspec").GridSpec
    o = cx.str("order", 0, 6)
    cx.assume(cx.and_(cx.not_(o == "ring"), cx.not_(o == "nested")))
    key = cx.choice("key", ["order", "ordering"])
    valid = cx.choice("valid", ["ring", "nested"])
    bad, good = {"grid": "H4", key: o}, {"grid": "H4", "order": valid}

    def run():
        x, y = G.from_dict(bad), G.from_dict(good)
        return (x == y) if cx.p("swap") else (y == x)

    r, err = cx.try_(run)
    cx.check(isinstance(err, ValueError) if err is not None else not r, "bad-order", [str(type(err)), r])


def cross(cx):
    """grids of different families never match"""
    G = mod("gridspec").GridSpec
    fams = {
        "o": lambda t: {"grid": "O" + cx.str(t, 1, 3, lo=48, hi=57)},
        "n": lambda t: {"grid": "N" + cx.str(t, 1, 3, lo=48, hi=57)},
        "h": lambda t: {"grid": "H" + cx.str(t, 1, 3, lo=48, hi=57), "order": "nested"},
        "orca": lambda t: {"grid": "ORCA" + cx.str(t, 1, 3, lo=48, hi=57) + "_T"},
        "ll": lambda t: {"grid": [cx.float(t + ".dx", 0.05, 30), cx.float(t + ".dy", 0.05, 30)]},
    }
    names = list(fams)
    i = cx.choice("i", names)
    j = cx.choice("j", names)
    if i == j:
        cx.stop()
    a, b = fams[i]("a"), fams[j]("b")
    cx.check(not (G.from_dict(a) == G.from_dict(b)), "no-match", [a, b])


HARNESS = {"infer": infer, "orca": orca, "healpix": healpix, "healpix_order": healpix_order, "cross": cross}


def jobs(tier):
    T = tier == "thorough"
    return [
        {"h": "infer", "fresh": "gridspec", "params": {"n": 7 if T else 5}},
        {"h": "orca", "fresh": "gridspec", "params": {"nd": 4 if T else 3}},
        {"h": "healpix", "fresh": "gridspec", "params": {"nd": 4 if T else 2}},
        {"h": "healpix_order", "fresh": "gridspec", "params": {}},
        {"h": "healpix_order", "fresh": "gridspec", "params": {"swap": 1}},
        {"h": "cross", "fresh": "gridspec", "params": {}},
    ]
