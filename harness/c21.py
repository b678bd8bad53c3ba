"""C21: what is saved is what a new process reads, and nothing else is saved."""
import os
import pathlib

from symx.ctx import mod, purge_modules

from ._conf import BOOL, BYTES, DEFAULT, ENUM, PCT, TIME, TMPDIR, config, env_name, same

TECHNIQUE = "symbolic execution of the instrumented source + z3 (symbolic sequences and values, real file, re-imported package), reference model"
LEVEL_NOTE = (
    "Complete for all sequences and values within the stated bounds. The YAML library is trusted: symbolic values pass through the file as "
    "opaque tokens of their own type (explored paths are replayed with the real text)."
)
BOUNDS = (
    "sequences of 3 (thorough 4) operations out of: setting 6 options (symbolic integers, symbolic text, Path, None, bool, enumeration) by each "
    "form of the call, reset of one or all, a temporary configuration with a setting inside, setting under an environment variable, "
    "switching auto-save off, then a new process; save_as and a start from that file; 9 kinds of invalid file"
)
OUTSIDE = "two processes writing the file at the same time; a crash while the file is written"
ASSUMPTIONS = ["PyYAML reads back the scalars it writes"]
SCHED = True
REQUIRED_UNION = ["read-back", "only-what-was-set", "reset", "invalid-file", "save-as"]
ALL = {k: v for k, v in DEFAULT.items()}


def path():
    return os.path.expanduser("~/.config/earthkit/regrid/config.yaml")


def keys_in(p):
    with open(p) as f:
        lines = f.read().split("\n")
    return {x.split(":")[0].strip().strip("'\"") for x in lines if ":" in x and not x.startswith("#") and x[:1] not in (" ", "")}


def text(cx, tag):
    return "/" + cx.str(tag, 1, 2, lo=33, hi=126)


def agree(cx, c, want, label, hist):
    for k, v in want.items():
        cx.check(same(cx, c.get(k), v), label, [hist, k, c.get(k), v])


def change(cx, tag, kinds=None):
    """-> (name, raw, meaning)"""
    k = cx.choice(tag + ".what", kinds or ["int", "str", "path", "bool", "enum", "none", "bytes"])
    if k == "int":
        n = cx.int(tag + ".n", 100, 999)
        return TIME, n, n
    if k == "str":
        s = text(cx, tag + ".s")
        return TMPDIR, s, s
    if k == "path":
        return TMPDIR, pathlib.Path("/some/where"), "/some/where"
    if k == "bool":
        return BOOL, True, True
    if k == "enum":
        v = cx.choice(tag + ".e", ["lru", "off", "largest"])
        return ENUM, v, v
    if k == "none":
        return BYTES, None, None
    n = cx.int(tag + ".k", 1, 9)
    return PCT, n, n


def roundtrip(cx):
    c = config()
    cur = dict(ALL)
    saved = dict(ALL)
    autosave = True
    hist = []
    kinds = cx.p("kinds")
    for step in range(cx.p("L")):
        ops = ["set", "dict", "kwargs", "reset", "reset1", "tmp", "tmpin", "env", "nosave"]
        op = cx.choice("op%d" % step, cx.p("first") if step == 0 and cx.p("first") else ops)
        hist.append(op)
        t = "v%d" % step
        if op in ("set", "dict", "kwargs", "env"):
            name, raw, v = change(cx, t, kinds)
            if op == "env":
                other = {"int": "77", "str": "/env"}.get(kinds[0] if kinds else "", "/env") if name == TMPDIR else "77"
                if name in (BOOL, ENUM):
                    cx.stop()
                os.environ[env_name(name)] = other
            if op == "dict":
                c.set({name: raw})
            elif op == "kwargs":
                c.set(**{name.replace("-", "_"): raw})
            else:
                c.set(name, raw)
            if op == "env":
                del os.environ[env_name(name)]
            cur[name] = v
            if autosave:
                saved = dict(cur)
        elif op == "reset":
            c.reset()
            cur = dict(ALL)
            if autosave:
                saved = dict(cur)
            agree(cx, c, cur, "reset", hist)
        elif op == "reset1":
            c.reset(TIME)
            cur[TIME] = ALL[TIME]
            if autosave:
                saved = dict(cur)
            agree(cx, c, cur, "reset", hist)
        elif op == "tmp":
            name, raw, v = change(cx, t, kinds)
            with c.temporary(name, raw):
                pass
        elif op == "tmpin":
            name, raw, v = change(cx, t, kinds)
            with c.temporary():
                c.set(name, raw)
                if step == 0:
                    c.reset()
        else:
            c.autosave = not autosave
            autosave = not autosave
    agree(cx, c, cur, "in-force", hist)
    for k in keys_in(path()):
        cx.check(k == "version" or (k in saved and not same_c(saved[k], ALL[k])), "only-what-was-set", [hist, k])
    purge_modules()
    c = config()
    agree(cx, c, saved, "read-back", hist)
    cx.sample(hist=hist)


def same_c(a, b):
    return a is b or (a == b) is True


def save_as(cx):
    c = config()
    c.autosave = cx.choice("autosave", [True, False])
    want = dict(ALL)
    for i in range(cx.p("L")):
        name, raw, v = change(cx, "v%d" % i, cx.p("kinds") if i == 0 else ["int", "none"])
        c.set(name, raw)
        want[name] = v
    where = os.path.join(cx.dir(), "my.yaml")
    how = cx.choice("how", ["plain", "inside", "enter"])
    base = dict(want)
    if how == "inside":
        n = cx.int("inner", 1, 9)
        with c.temporary(PCT, n):
            c.save_as(where)
        want[PCT] = n
    elif how == "enter":
        n = cx.int("inner", 1, 9)
        with c.temporary(config_yaml=where):
            c.autosave = True
            c.set(PCT, n)
        want[PCT] = n
    else:
        c.save_as(where)
    agree(cx, c, base, "in-force", how)
    os.environ["EARTHKIT_REGRID_CONFIG_FILE"] = where
    purge_modules()
    c = config()
    agree(cx, c, want, "save-as", how)
    # this process saves into the same file
    c.autosave = True
    c.set(TIME, 8)
    del os.environ["EARTHKIT_REGRID_CONFIG_FILE"]
    os.environ["EARTHKIT_REGRID_CONFIG_FILE"] = where
    purge_modules()
    c = config()
    want[TIME] = 8
    agree(cx, c, want, "save-as", how)
    del os.environ["EARTHKIT_REGRID_CONFIG_FILE"]


BAD = ["", "just text", "- a\n- list\n", "a: [1, 2\n", "{", "\tx: y", "a: b: c", "!!python/object/apply:os.getcwd []", "\x00\x01", "5"]


def invalid(cx):
    c = config()
    c.autosave = True
    c.set(TIME, 44)
    i = cx.choice("bad", range(len(BAD)))
    with open(path(), "w") as f:
        f.write(BAD[i])
    purge_modules()
    c = config()
    agree(cx, c, ALL, "invalid-file", BAD[i])
    n = cx.int("n", 100, 999)
    c.set(TIME, n)
    purge_modules()
    c = config()
    agree(cx, c, dict(ALL, **{TIME: n}), "read-back", BAD[i])


def handwritten(cx):
    """a file without a version, or of another version, is read as well"""
    config()
    ver = cx.choice("version", [None, "0.0.1", "999.0", "0.10.0"])
    with open(path(), "w") as f:
        f.write("url-download-timeout: 12\nmaximum-cache-size: 2k\ncheck-out-of-date-urls: true\nweights-memory-cache-policy: lru\n")
        if ver:
            f.write("version: %s\n" % ver)
    want = dict(ALL, **{TIME: 12, BYTES: 2048, BOOL: True, ENUM: "lru"})
    for i in range(2):
        purge_modules()
        agree(cx, config(), want, "read-back", [ver, i])


HARNESS = {"roundtrip": roundtrip, "save_as": save_as, "invalid": invalid, "handwritten": handwritten}


def jobs(tier):
    T = tier == "thorough"
    out = []
    for first in (["set"], ["dict", "kwargs"], ["reset", "reset1"], ["tmp"], ["tmpin"], ["env"], ["nosave"]):
        out.append({"h": "roundtrip", "params": {"L": 4 if T else 3, "first": first, "kinds": ["int"]}})
    for kinds in (["path", "bytes"], ["bool", "enum"], ["none", "str"], ["int", "str"]):
        out.append({"h": "roundtrip", "params": {"L": 2 if not T else 3, "kinds": kinds}})
    for kinds in (["int", "str"], ["path", "bool"], ["enum", "bytes"]):
        out.append({"h": "save_as", "params": {"L": 2 if not T else 3, "kinds": kinds}})
    out.append({"h": "invalid", "params": {}})
    out.append({"h": "handwritten", "params": {}})
    return out
