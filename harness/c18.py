"""C18: quantities given as text mean what they say."""
from symx.ctx import mod

TECHNIQUE = "symbolic execution of the instrumented source + z3 (symbolic text), differential vs a reference grammar"
LEVEL_NOTE = (
    "Complete for every printable-ASCII text (plus tab and newline) up to the stated length; trusts z3 and the regular expression model "
    "(validated by replay)."
)
BOUNDS = (
    "every text of up to 6 (thorough 7) characters out of tab, newline and printable ASCII, through the conversion functions and through "
    "the configuration (set and environment); numbers 0..999999, None, booleans, floats"
)
OUTSIDE = "non-ASCII digits and letters; unit words other than the listed ones (they may be rejected, or mean their first letter)"
ASSUMPTIONS = []
REQUIRED_UNION = ["valid", "malformed", "number", "none", "config"]

UNITS = {
    "as_bytes": {
        **{u: 1024 ** (i + 1) for i, u in enumerate("KMGTP")},
        **{u.lower(): 1024 ** (i + 1) for i, u in enumerate("KMGTP")},
    },
    "as_seconds": {"s": 1, "m": 60, "h": 3600, "d": 86400, "w": 604800},
    "as_percent": {"%": 1},
}
WORDS = {
    "as_bytes": [u + x for u in "KMGTPkmgtp" for x in ("", "B", "b", "iB", "ib")],
    "as_seconds": ["s", "m", "h", "d", "w", "sec", "min", "hour", "day", "week", "hours", "days", "secs", "mins"],
    "as_percent": ["%"],
}
OPTION = {"as_bytes": "maximum-cache-size", "as_seconds": "url-download-timeout", "as_percent": "maximum-cache-disk-usage"}


def parse(cx, s):
    """-> (number text, unit text) or None. Forks where it has to."""
    n = len(s)

    def space(i):
        o = ord_(s[i])
        return bool(cx.or_(o == 32, o == 9, o == 10))

    def digit(i):
        o = ord_(s[i])
        return bool(cx.and_(o >= 48, o <= 57))

    i = 0
    while i < n and space(i):
        i += 1
    j = i
    while j < n and digit(j):
        j += 1
    if j == i:
        return None
    k = j
    while k < n and space(k):
        k += 1
    u = k
    while u < n and not space(u):
        u += 1
    for v in range(u, n):
        if not space(v):
            return None
    return s[i:j], s[k:u]


def number(digits):
    v = 0
    for c in digits:
        v = v * 10 + (ord_(c) - 48)
    return v


def ord_(c):
    from symx import hooks

    return hooks.b_ord(c)


def text(cx):
    fn = cx.p("fn")
    s = cx.str("s", cx.p("n"), cx.p("n"), lo=9, hi=126)
    for i in range(len(s)):
        c = ord_(s[i])
        cx.assume(cx.or_(c == 9, c == 10, c >= 32))
    via = cx.p("via", "function")
    if via == "function":
        r, e = cx.try_(getattr(mod("utils.humanize"), fn), s)
    else:
        r, e = through_config(cx, via, OPTION[fn], s)
    p = parse(cx, s)
    if p is None:
        cx.check(e is not None and isinstance(e, (ValueError, TypeError)), "malformed", [s, r, e])
        return
    v = number(p[0])
    if len(p[1]) == 0:
        cx.check(e is None and r == v, "valid", [s, r, e])
        return
    units = UNITS[fn]
    known = False
    for w in WORDS[fn]:
        if len(w) == len(p[1]) and p[1] == w:
            known = True
            break
    first = None
    for u in units:
        if p[1][0] == u:
            first = u
            break
    if first is None:
        cx.check(e is not None and isinstance(e, (ValueError, TypeError)), "malformed", [s, r, e])
    elif known:
        cx.check(e is None and r == v * units[first], "valid", [s, r, e])
    else:
        # an unknown word: rejected, or its first letter counts
        cx.check(isinstance(e, (ValueError, TypeError)) if e is not None else r == v * units[first], "malformed", [s, r, e])
    if via != "function":
        cx.cover("config")


def through_config(cx, via, opt, s):
    config = mod().config
    config.autosave = False
    if via == "set":
        before = config.get(opt)
        _, e = cx.try_(config.set, opt, s)
        if e is not None:
            cx.check(config.get(opt) == before, "config", [s, e])
            return None, e
    else:
        cx.setenv("EARTHKIT_REGRID_" + opt.upper().replace("-", "_"), s)
    return cx.try_(config.get, opt)


def numbers(cx):
    """numbers mean themselves; None only where allowed; other values are rejected"""
    fn = getattr(mod("utils.humanize"), cx.p("fn"))
    n = cx.int("n", 0, 999999)
    r, e = cx.try_(fn, n)
    cx.check(e is None and r == n, "number", [n, r, e])
    cx.check(cx.try_(fn, None, none_ok=True) == (None, None), "none")
    r, e = cx.try_(fn, None)
    cx.check(isinstance(e, (ValueError, TypeError)), "none", [r, e])
    for bad in (-1, 1.5, True, "", "%", "K", "1.5K", "-1", "1 2", [1], {}):
        r, e = cx.try_(fn, bad)
        cx.check(isinstance(e, (ValueError, TypeError)), "malformed", [bad, r])


HARNESS = {"text": text, "numbers": numbers}


def jobs(tier):
    q = tier == "quick"
    out = []
    for fn in UNITS:
        for n in range(0, 7 if q else 8):
            out.append({"h": "text", "params": {"fn": fn, "n": n}, "fresh": False})
        for via in ("set", "env"):
            for n in range(1, 4 if q else 5):
                out.append({"h": "text", "params": {"fn": fn, "n": n, "via": via}})
        out.append({"h": "numbers", "params": {"fn": fn}, "fresh": False})
    return sorted(out, key=lambda j: -j["params"].get("n", 0))
