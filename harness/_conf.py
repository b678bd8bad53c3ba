"""Reference model of configuration values (from the documentation), for the configuration harnesses."""
from symx.ctx import mod

TIME, BYTES, PCT = "url-download-timeout", "maximum-cache-size", "maximum-cache-disk-usage"
MEM, BOOL, BOOL2 = "maximum-weights-memory-cache-size", "check-out-of-date-urls", "download-out-of-date-urls"
ENUM, DIR, TMPDIR = "weights-memory-cache-policy", "user-cache-directory", "temporary-directory-root"
POLICIES = ["off", "unlimited", "largest", "lru"]
UNITS = {
    "time": {"": 1, "s": 1, "m": 60, "h": 3600, "d": 86400, "w": 604800},
    "bytes": {"": 1, "k": 1024, "M": 1024**2, "GB": 1024**3, "T": 1024**4, "P": 1024**5},
    "pct": {"": 1, "%": 1},
}
KIND = {TIME: "time", BYTES: "bytes", PCT: "pct", MEM: "bytes", BOOL: "bool", BOOL2: "bool", ENUM: "enum", TMPDIR: "str", DIR: "str"}
NONE_OK = {BYTES, PCT, MEM, TMPDIR}
DEFAULT = {TIME: 30, BYTES: 5 * 1024**3, PCT: None, MEM: 500 * 1024**2, BOOL: False, BOOL2: False, ENUM: "largest", TMPDIR: None}


def ord_(c):
    from symx import hooks

    return hooks.b_ord(c)


def env_name(name):
    return "EARTHKIT_REGRID_" + name.upper().replace("-", "_")


def number(s):
    v = 0
    for c in s:
        v = v * 10 + (ord_(c) - 48)
    return v


def value(cx, name, tag, env=False, forms=None, full=False):
    """-> (raw, meaning) of a valid value of the setting."""
    kind = KIND[name]
    if kind == "bool" and not full:
        t = cx.choice(tag + ".t", ["True", "0"] if env else [True, False])
        return t, t in (True, "True")
    if kind == "enum" and not full:
        p = cx.choice(tag + ".p", POLICIES[1:3])
        return p, p
    if not full and kind != "str":
        if not env:
            if name in NONE_OK and name != MEM and cx.choice(tag + ".none", [False, True]):
                return None, None
            n = cx.int(tag + ".n", 100, 999)
            return n, n
        d = cx.str(tag + ".d", 1, 1, lo=49, hi=57)
        unit = cx.choice(tag + ".u", list(UNITS[kind])[-2:])
        return d + unit, number(d) * UNITS[kind][unit]
    if kind == "bool":
        if not env and cx.choice(tag + ".native", [True, False]):
            b = cx.choice(tag + ".b", [True, False])
            return b, b
        t = cx.choice(tag + ".t", ["True", "False", "true", "false", "1", "0", "FALSE"])
        return t, t.lower() in ("true", "1")
    if kind == "enum":
        p = cx.choice(tag + ".p", POLICIES)
        return p, p
    if kind == "str":
        s = cx.str(tag + ".s", 1, 2, lo=33, hi=126)
        return s, s
    opts = ["text"] if env else ["int", "text"] + (["none"] if name in NONE_OK and name != MEM else [])
    form = cx.choice(tag + ".form", forms or opts)
    if form == "none":
        return None, None
    if form == "int":
        n = cx.int(tag + ".n", 1, 999999)
        return n, n
    d = cx.str(tag + ".d", 1, 2, lo=48, hi=57)
    cx.assume(cx.or_(*[ord_(c) > 48 for c in d]))
    unit = cx.choice(tag + ".u", list(UNITS[kind]))
    return d + unit, number(d) * UNITS[kind][unit]


def invalid(cx, name, tag, env=False):
    """A value the setting cannot have."""
    kind = KIND[name]
    if kind == "enum":
        s = cx.str(tag + ".s", 0, 7, lo=97, hi=122)
        cx.assume(cx.and_(*[cx.not_(s == p) for p in POLICIES]))
        return s
    if kind == "bool":
        s = cx.str(tag + ".s", 1, 3, lo=50, hi=126)
        cx.assume(cx.and_(*[cx.not_(s.lower() == p) for p in ("yes", "no", "on", "off", "y", "n", "t", "f")]))
        return s
    bad = cx.choice(tag + ".bad", ["letters", "negative", "unit", "float"])
    if bad == "letters":
        return cx.str(tag + ".s", 1, 3, lo=65, hi=122)
    if bad == "negative":
        n = cx.int(tag + ".n", -99999, -1)
        return "-" + str(abs(cx.p("neg", 1))) if env else n
    d = cx.str(tag + ".d", 1, 2, lo=48, hi=57)
    if bad == "unit":
        return d + cx.choice(tag + ".u", ["x", "x5", "z"])
    return d + "." + d


def same(cx, got, want):
    """Equal and of the same kind."""
    if want is None or got is None:
        return want is None and got is None
    if isinstance(want, bool) or isinstance(got, bool):
        return got is want
    return got == want


def config():
    return mod().config
