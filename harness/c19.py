"""C19: precedence, conversion and validation of configuration values."""
import os

from symx.ctx import mod

from ._conf import BOOL, BOOL2, BYTES, DEFAULT, ENUM, KIND, MEM, PCT, TIME, TMPDIR, config, env_name, invalid, same, value

TECHNIQUE = "symbolic execution of the instrumented source + z3 (symbolic values, texts and layers), differential vs a reference model"
LEVEL_NOTE = "Complete for all layerings and values within the stated bounds; trusts z3 and the instrumentation (explored paths are replayed)."
BOUNDS = (
    "8 settings (a duration, byte sizes, a percentage, booleans, an enumeration, a path); user value, up to 2 nested temporary contexts "
    "and an environment variable each present or not; values as symbolic integers, texts of 1-2 symbolic digits with every documented unit, "
    "every spelling of a boolean, symbolic path strings; invalid values as symbolic texts or numbers at every position of a multi-setting call"
)
OUTSIDE = "longer texts (C18 decides the conversion of texts); more than two nested contexts (C20); settings kept in the file (C21)"
ASSUMPTIONS = ["boolean texts are true/yes/on/1 and false/no/off/0 in any case; the empty text is not decided"]
SCHED = True
REQUIRED_UNION = ["value", "env", "rejected", "unchanged", "not-saved", "not-notified", "env-rejected"]


def call(f, form, name, raw):
    if form == "dict":
        return f({name: raw})
    if form == "kwargs":
        return f(**{name.replace("-", "_"): raw})
    return f(name, raw)


def precedence(cx):
    c = config()
    c.autosave = False
    name = cx.p("name")
    expect = [DEFAULT[name]]
    env = None
    cms = []

    def check(label):
        if env is not None:
            cx.check(same(cx, c.get(name), env), "env", [label, c.get(name), env])
        else:
            cx.check(same(cx, c.get(name), expect[-1]), "value", [label, c.get(name), expect[-1]])
            cx.check(same(cx, c.get(name, "fallback"), expect[-1]), "value", label)

    check("default")
    if cx.choice("user", [True, False]):
        raw, v = value(cx, name, "user")
        c.set(name, raw)
        expect[-1] = v
        check("user")
    when = cx.choice("env", range(cx.p("nctx") + 2)) - 1 if cx.p("env") else None

    def set_env():
        raw, v = value(cx, name, "env", env=True)
        cx.setenv(env_name(name), raw)
        return v

    for i in range(cx.p("nctx")):
        if when == i:
            env = set_env()
            check("env")
        kind = cx.choice("ctx%d" % i, ["none", "init", "inside"])
        if kind == "init":
            raw, v = value(cx, name, "c%d" % i)
            cm = c.temporary(name, raw)
        else:
            cm, v = c.temporary(), expect[-1]
        cm.__enter__()
        cms.append(cm)
        expect.append(v)
        check("entered")
        if kind == "inside":
            raw, v = value(cx, name, "c%d" % i)
            c.set(name, raw)
            expect[-1] = v
            check("set inside")
        other = BOOL2 if name != BOOL2 else BOOL
        cx.check(c.get(other) is False, "value", "another setting")
    if when == cx.p("nctx"):
        env = set_env()
        check("env")
    gone = cx.choice("env-gone", ["before", "after"]) if env is not None else None
    if gone == "before":
        del os.environ[env_name(name)]
        env = None
        check("env gone")
    while cms:
        cms.pop().__exit__(None, None, None)
        expect.pop()
        check("left")
    if gone == "after":
        del os.environ[env_name(name)]
        env = None
        check("env gone")
    cx.sample(name=name)


def forms(cx):
    """every form of the call and every way of writing the value"""
    c = config()
    c.autosave = False
    name = cx.p("name")
    how = cx.choice("how", ["set", "temporary", "env"])
    if how == "env":
        raw, v = value(cx, name, "v", env=True, full=True)
        cx.setenv(env_name(name), raw)
        cx.check(same(cx, c.get(name), v), "env", [raw, c.get(name), v])
        with c.temporary(name, DEFAULT[name]):
            cx.check(same(cx, c.get(name), v), "env")
            cx.check(c.env() == {name: (env_name(name), raw)}, "env")
        del os.environ[env_name(name)]
        cx.check(same(cx, c.get(name), DEFAULT[name]), "value")
        return
    raw, v = value(cx, name, "v", full=True)
    form = cx.choice("form", ["pos", "dict", "kwargs"])
    if how == "set":
        call(c.set, form, name, raw)
        cx.check(same(cx, c.get(name), v), "value", [raw, c.get(name), v])
    else:
        with call(c.temporary, form, name, raw):
            cx.check(same(cx, c.get(name), v), "value", [raw, c.get(name), v])
        cx.check(same(cx, c.get(name), DEFAULT[name]), "value")
    for k, d in DEFAULT.items():
        if k != name:
            cx.check(same(cx, c.get(k), d), "value", k)


def reject(cx):
    """one invalid item spoils the whole call"""
    c = config()
    c.autosave = True
    calls = []
    path = os.path.expanduser("~/.config/earthkit/regrid/config.yaml")
    before = {TIME: 7, ENUM: "lru", BOOL: True}
    c.set({TIME: 7, ENUM: "lru", BOOL: True})
    cms = []
    for i in range(cx.p("depth")):
        cm = c.temporary(TIME, 8 + i)
        cm.__enter__()
        cms.append(cm)
        before[TIME] = 8 + i
    c.on_change(lambda: calls.append(1))
    with open(path) as f:
        saved = f.read()

    items = [(TIME, cx.int("t", 100, 200)), (ENUM, "off"), (BOOL, False)]
    where = cx.choice("where", [0, 1, 2])
    kind = cx.choice("kind", ["name", "value"])
    if kind == "name":
        items.insert(where, (cx.choice("unknown", ["no-such-option", "url-download-timeou"]), 1))
    else:
        bad = cx.choice("bad", [BYTES, BOOL2, ENUM, TIME])
        items = [x for x in items if x[0] != bad]
        items.insert(where, (bad, invalid(cx, bad, "bad")))
    target = cx.choice("call", ["set", "temporary"])
    f = c.set if target == "set" else c.temporary
    if cx.choice("form", ["dict", "kwargs"]) == "dict":
        r, err = cx.try_(f, dict(items))
    else:
        r, err = cx.try_(f, **{k.replace("-", "_"): v for k, v in items})
    cx.check(isinstance(err, (KeyError, ValueError, TypeError)), "rejected", [items, err])
    for k, v in before.items():
        cx.check(same(cx, c.get(k), v), "unchanged", [k, c.get(k)])
    cx.check(c.get(BYTES) == DEFAULT[BYTES] and c.get(BOOL2) is False, "unchanged")
    with open(path) as f:
        cx.check(f.read() == saved, "not-saved")
    cx.check(not calls, "not-notified", calls)
    while cms:
        cms.pop().__exit__(None, None, None)
    cx.check(c.get(TIME) == 7, "unchanged")
    # the next valid change is in force, saved and notified
    n = len(calls)
    c.set(TIME, 9)
    cx.check(c.get(TIME) == 9 and len(calls) > n, "value")
    cx.sample(items=str([k for k, _ in items]), where=where)


def single(cx):
    """positional form with one setting"""
    c = config()
    c.autosave = False
    name = cx.p("name")
    raw, v = value(cx, name, "v", forms=["int"] if KIND[name] in ("time", "bytes", "pct") else None)
    c.set(name, raw)
    n = []
    c.on_change(lambda: n.append(1))
    r, err = cx.try_(c.set, name, invalid(cx, name, "bad"))
    cx.check(isinstance(err, (ValueError, TypeError)), "rejected", [name, err])
    cx.check(same(cx, c.get(name), v), "unchanged")
    cx.check(not n, "not-notified")
    for f in (c.get, lambda k: c.set(k, 1), lambda k: c.temporary(k, 1), c.reset):
        r, err = cx.try_(f, "no-such-option")
        cx.check(isinstance(err, KeyError), "rejected", err)
    cx.check(same(cx, c.get(name), v), "unchanged")
    cx.check(not n, "not-notified")


def bad_env(cx):
    c = config()
    name = cx.p("name")
    cx.setenv(env_name(name), invalid(cx, name, "bad", env=True))
    r, err = cx.try_(c.get, name)
    cx.check(isinstance(err, (ValueError, TypeError)), "env-rejected", [name, r, err])
    del os.environ[env_name(name)]
    cx.check(same(cx, c.get(name), DEFAULT[name]), "value")


HARNESS = {"forms": forms, "precedence": precedence, "reject": reject, "single": single, "bad_env": bad_env}


def jobs(tier):
    T = tier == "thorough"
    out = []
    for name in (TIME, BYTES, PCT, BOOL, ENUM, TMPDIR, MEM):
        out.append({"h": "precedence", "params": {"name": name, "nctx": 2, "env": 0}})
        out.append({"h": "precedence", "params": {"name": name, "nctx": 2 if T else 1, "env": 1}})
        out.append({"h": "forms", "params": {"name": name}})
    for d in (0, 1, 2):
        out.append({"h": "reject", "params": {"depth": d}})
    for name in (TIME, BYTES, PCT, MEM, BOOL, ENUM):
        out.append({"h": "single", "params": {"name": name}})
    for name in (TIME, BYTES, PCT, BOOL, ENUM):
        out.append({"h": "bad_env", "params": {"name": name}})
    return out
