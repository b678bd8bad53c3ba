"""C11: the in-memory cache follows every change of the configuration, and only as long as it is in force."""
from symx.ctx import mod

from . import _mem as M

TECHNIQUE = "symbolic execution of the instrumented source + z3 (all sequences of configuration changes; symbolic sizes and limits)"
LEVEL_NOTE = (
    "Complete for all sequences of configuration changes of the stated length with requests in between, and all sizes and limits within "
    "the bounds; trusts z3 and the instrumentation (paths replayed on real npz files)."
)
BOUNDS = (
    "sequences of 2-3 (thorough 3) changes, then leaving what is still entered: set of policy / limit / strict mode, entering a temporary configuration changing one of them or "
    "nothing, leaving it normally or by an exception; a request for one of 2 matrices after each; symbolic sizes and limits"
)
OUTSIDE = "longer sequences; limits of None or 0"
ASSUMPTIONS = []
REQUIRED_UNION = ["policy", "limit", "budget", "answer", "refused", "off", "cached"]

POL = ["largest", "lru", "unlimited", "off"]
KEY = {"P": M.POLICY, "S": M.SIZE, "T": M.STRICT}


def follow(cx):
    n = 2
    w = M.World(cx, n)
    config = mod().config
    config.autosave = False
    stack = [{"P": cx.p("policy"), "S": cx.int("limit", 100, 999), "T": False}]
    M.configure(size=stack[0]["S"], policy=stack[0]["P"])
    cms = []
    hist = []
    M_first = w.request(0, 10)
    cx.check(M_first == 10, "answer")

    def value(k, step):
        if k == "P":
            return cx.choice("pol%d" % step, [p for p in POL if p != stack[-1]["P"]])
        if k == "S":
            return cx.int("size%d" % step, 100, 999)
        return not stack[-1]["T"]

    for step in range(cx.p("L")):
        ops = cx.p("ops") if step == 0 and cx.p("ops") else ["P", "S", "T", "EP", "ES", "ET", "E"] + (["X", "XE"] if cms else [])
        op = cx.choice("op%d" % step, ops)
        hist.append(op)
        if op in KEY:
            v = value(op, step)
            config.set(KEY[op], v)
            stack[-1] = dict(stack[-1], **{op: v})
        elif op[0] == "E":
            new = dict(stack[-1])
            if op == "E":
                cm = config.temporary()
            else:
                v = value(op[1], step)
                cm = config.temporary(KEY[op[1]], v)
                new[op[1]] = v
            cm.__enter__()
            cms.append(cm)
            stack.append(new)
        else:
            cm = cms.pop()
            stack.pop()
            if op == "X":
                cm.__exit__(None, None, None)
            else:
                try:
                    raise KeyError("body failed")
                except KeyError as e:
                    cm.__exit__(type(e), e, e.__traceback__)
        verify(cx, w, stack[-1], step, hist)
    while cms:
        cms.pop().__exit__(None, None, None)
        stack.pop()
    verify(cx, w, stack[-1], 8, hist)
    cx.sample(hist=hist)


def verify(cx, w, c, step, hist):
    f = M.info()
    pol, limit = c["P"], c["S"]
    limited = pol in ("lru", "largest")
    cx.check(f.policy == pol, "policy", [hist, f.policy, pol])
    if limited:
        cx.check(f.maxsize == limit, "limit", [hist, f.maxsize, limit])
        cx.check(f.currsize <= limit, "budget", [hist, f])
    elif pol == "off":
        cx.check(cx.and_(f.count == 0, f.currsize == 0), "budget", [hist, f])
    op = step % 2
    now = 10 * (step + 2) + op
    r, e = cx.try_(w.request, op, now)
    if e is not None:
        cx.check(isinstance(e, ValueError), "refused", [hist, e])
        cx.check(cx.and_(limited, c["T"], w.size[op] > limit), "refused", [hist, e])
        return
    cx.check(r % 10 == op and r <= now, "answer", [hist, r])
    if limited and c["T"] and r == now:
        cx.check(w.size[op] <= limit, "refused", [hist])
    again = w.request(op, now + 500)
    if pol == "off":
        cx.check(r == now and again == now + 500, "off", [hist, r, again])
    elif limited:
        cx.check(M.info().currsize <= limit, "budget", hist)
        cx.check(cx.iff(w.size[op] <= limit, again == r), "cached", [hist, r, again])
    else:
        cx.check(again == r, "cached", [hist, r, again])


HARNESS = {"follow": follow}


def jobs(tier):
    out = []
    for p in POL:
        for ops in (["P"], ["S"], ["T", "E"], ["EP"], ["ES"], ["ET"]):
            deep = (p, ops[0]) in (("off", "ET"), ("unlimited", "S"))
            L = 2 if tier == "quick" and not deep else 3
            out.append({"h": "follow", "params": {"policy": p, "L": L, "ops": ops}})
    return out
