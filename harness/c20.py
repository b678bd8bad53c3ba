"""C20: temporary configurations are always undone and changes always notified."""
from ._conf import BOOL, DEFAULT, ENUM, TIME, config, same

TECHNIQUE = "symbolic execution of the instrumented source + z3 (symbolic sequences, values and failing notification), reference model"
LEVEL_NOTE = "Complete for all sequences within the stated bounds; trusts z3 and the instrumentation (explored paths are replayed)."
BOUNDS = (
    "sequences of 3 (thorough 5) operations (set, reset, entering a temporary configuration by each form, setting inside, leaving normally "
    "or by an exception) with up to 3 nested contexts; symbolic values; 2 subscribers, one of which may fail at any one notification"
)
OUTSIDE = "contexts left in another order than entered; subscribers that change the configuration themselves; concurrent threads"
ASSUMPTIONS = []
SCHED = True
REQUIRED_UNION = ["in-force", "restored", "notified", "visible", "fails"]


class Boom(Exception):
    pass


def sequence(cx):
    c = config()
    c.autosave = False
    seen = {0: [], 1: []}
    fail_at = cx.choice("fail_at", range(-1, cx.p("fails"))) if cx.p("fails") else -1
    who = cx.choice("who", [0, 1]) if fail_at >= 0 else 0
    bad = []

    def subscriber(i):
        def f():
            seen[i].append((c.get(TIME), c.get(BOOL)))
            if i == who and len(seen[i]) == fail_at + 1:
                bad.append(1)
                raise Boom()

        return f

    c.on_change(subscriber(0))
    c.on_change(subscriber(1))
    stack = [{TIME: DEFAULT[TIME], BOOL: False}]
    cms = []
    hist = []

    def agree(label):
        for k, v in stack[-1].items():
            cx.check(same(cx, c.get(k), v), label, [hist, k, c.get(k), v])

    def notified(n, changed, failed=False):
        cx.cover("fails") if failed else None
        for i in (0, 1):
            if changed:
                cx.check(len(seen[i]) > n[i], "notified", [hist, i])
            if len(seen[i]) > n[i]:
                t, b = seen[i][-1]
                cx.check(cx.and_(t == stack[-1][TIME], b is stack[-1][BOOL]), "visible", [hist, i, seen[i][-1], stack[-1]])

    for step in range(cx.p("L")):
        ops = ["set", "setb", "reset", "reset1", "enter", "enterd", "enter0"]
        if cms:
            ops += ["exit", "raise"]
        op = cx.choice("op%d" % step, cx.p("first") if step == 0 and cx.p("first") else ops)
        hist.append(op)
        new = dict(stack[-1])
        v = cx.int("v%d" % step, 100, 999) if op in ("set", "enter", "enterd") else None
        n = {i: len(seen[i]) for i in seen}
        k = len(bad)
        err = None
        if op in ("set", "setb", "reset", "reset1"):
            if op == "set":
                new[TIME] = v
                f = lambda: c.set(TIME, v)  # noqa: E731
            elif op == "setb":
                new[BOOL] = not new[BOOL]
                f = lambda: c.set({BOOL: new[BOOL], ENUM: "lru"})  # noqa: E731
            elif op == "reset":
                new = {TIME: DEFAULT[TIME], BOOL: False}
                f = lambda: c.reset()  # noqa: E731
            else:
                new[TIME] = DEFAULT[TIME]
                f = lambda: c.reset(TIME)  # noqa: E731
            _, err = cx.try_(f)
            stack[-1] = new
        elif op.startswith("enter"):
            if len(stack) > 3:
                cx.stop()
            if op == "enter":
                cm = c.temporary(TIME, v)
                new[TIME] = v
            elif op == "enterd":
                new[BOOL] = not new[BOOL]
                cm = c.temporary(url_download_timeout=v, check_out_of_date_urls=new[BOOL])
                new[TIME] = v
            else:
                cm = c.temporary()
            agree("in-force")  # nothing changes before it is entered
            _, err = cx.try_(cm.__enter__)
            if err is None:
                cms.append(cm)
                stack.append(new)
        else:
            cm = cms.pop()
            stack.pop()
            if op == "exit":
                _, err = cx.try_(cm.__exit__, None, None, None)
            else:
                try:
                    raise KeyError("body")
                except KeyError as e:
                    r, err = cx.try_(cm.__exit__, type(e), e, e.__traceback__)
                    cx.check(not r, "restored", "exception swallowed")
                    if isinstance(err, KeyError):
                        err = None
        failed = len(bad) > k
        cx.check(isinstance(err, Boom) if failed else err is None, "fails" if failed else "in-force", [hist, err])
        agree("restored" if op in ("exit", "raise") or failed else "in-force")
        notified(n, True, failed)
    while cms:
        cm = cms.pop()
        stack.pop()
        n = {i: len(seen[i]) for i in seen}
        k = len(bad)
        _, err = cx.try_(cm.__exit__, None, None, None)
        cx.check(isinstance(err, Boom) if len(bad) > k else err is None, "restored", [hist, err])
        agree("restored")
        notified(n, True, len(bad) > k)
    cx.sample(hist=hist)


HARNESS = {"sequence": sequence}


def jobs(tier):
    L = 5 if tier == "thorough" else 3
    out = []
    for first in (["set"], ["setb"], ["reset", "reset1"], ["enter"], ["enterd"], ["enter0"]):
        out.append({"h": "sequence", "params": {"L": L, "first": first, "fails": 0}})
        out.append({"h": "sequence", "params": {"L": L - 1, "first": first, "fails": L + 1}})
    return out
