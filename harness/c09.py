"""C09: in-memory eviction follows the documented order and removes only what is needed."""
from symx.ctx import mod

from . import _mem as M

TECHNIQUE = "symbolic execution of the instrumented source + z3, differential vs a reference cache (symbolic sizes and limits)"
LEVEL_NOTE = (
    "Complete for every size and limit over all request histories of the stated length, compared with a reference cache written from "
    "the documentation; trusts z3 and the instrumentation (paths replayed on real npz files)."
)
BOUNDS = (
    "histories of up to 4 (thorough 5) requests of 3 (thorough 4) matrices from an empty cache, followed by a change of the limit; or made under another policy with the last request after a switch; sizes "
    "20..728 bytes and limits 100..999 bytes symbolic; inventory estimates equal to the true size"
)
OUTSIDE = "estimates differing from the true size (C07, C10); ties between equally large matrices under 'largest'"
ASSUMPTIONS = ["under 'largest' all sizes differ"]
REQUIRED_UNION = ["held", "served", "evicted", "shrunk", "unlimited", "switched"]


class Ref:
    """Reference: list of (matrix, size), least recently used first."""

    def __init__(self, policy, limit):
        self.policy, self.limit, self.items = policy, limit, []

    def total(self):
        return sum((s for _, s in self.items), 0)

    def shrink(self, room):
        evicted = []
        while self.items and self.total() > room:
            k = 0
            if self.policy == "largest":
                for i in range(1, len(self.items)):
                    if self.items[i][1] > self.items[k][1]:
                        k = i
            evicted.append(self.items.pop(k)[0])
        return evicted

    def request(self, i, size):
        """-> (hit, evicted)"""
        for k, (m, _) in enumerate(self.items):
            if m == i:
                self.items.append(self.items.pop(k))
                return True, []
        if self.policy != "unlimited":
            if size > self.limit:
                return False, []  # "simply does not load the weights into the cache"
            ev = self.shrink(self.limit - size)
        else:
            ev = []
        self.items.append((i, size))
        return False, ev


def order(cx):
    n, pol = cx.p("n", 3), cx.p("policy")
    w = M.World(cx, n)
    limit = cx.int("limit", 100, 999)
    if pol == "largest":
        for i in range(n):
            for j in range(i):
                cx.assume(w.size[i] != w.size[j])
    start = cx.p("start")
    if start == "unlimited":
        M.configure(policy=start)
    else:
        M.configure(size=limit if not start else 10**6, policy=start or pol, strict=cx.p("strict", False))
    if cx.p("strict", False):
        for i in range(n):
            cx.assume(w.size[i] <= limit)
    ref = Ref("unlimited" if start else pol, limit)
    used = []
    switch = cx.p("L") - 1 if start else None
    for step in range(cx.p("L")):
        op = M.growth(cx, "op%d" % step, used, n)
        used.append(op)
        if step == switch:
            # the uses made under another policy count
            M.configure(size=limit, policy=pol)
            ref.policy = pol
            if ref.shrink(limit):
                cx.cover("switched")
        hit, ev = ref.request(op, w.size[op])
        old = w.stamp[op]
        got = w.request(op, step + 1)
        cx.check(got == (old_stamp[op] if hit else step + 1) if step else True, "served", [used, got, hit])
        if not step:
            old_stamp = {}
        if not hit:
            old_stamp[op] = step + 1
        if ev:
            cx.cover("evicted")
    if pol == "unlimited":
        cx.cover("unlimited")
    f = M.info()
    cx.check(cx.and_(f.count == len(ref.items), f.currsize == ref.total()), "held", [f, [m for m, _ in ref.items], used])
    if cx.p("shrink"):
        lim2 = cx.int("limit2", 100, 999)
        M.configure(size=lim2)
        if ref.shrink(lim2):
            cx.cover("shrunk")
        ref.limit = lim2
        f = M.info()
        cx.check(cx.and_(f.count == len(ref.items), f.currsize == ref.total()), "held", [f, [m for m, _ in ref.items], used])
    if pol != "unlimited":
        M.configure(size=10**8)
    for i in sorted(set(used)):
        is_held = any(m == i for m, _ in ref.items)
        got = w.request(i, 1000 + i)
        cx.check(got == (old_stamp[i] if is_held else 1000 + i), "held", [i, is_held, got, used])
    cx.sample(policy=pol, used=used, held=[m for m, _ in ref.items], limit=limit)


HARNESS = {"order": order}


def jobs(tier):
    out = []
    for pol in ("lru", "largest"):
        out.append({"h": "order", "params": {"policy": pol, "L": 4}})
        out.append({"h": "order", "params": {"policy": pol, "L": 3, "shrink": True}})
        out.append({"h": "order", "params": {"policy": pol, "L": 4, "strict": True}})
        if tier != "quick":
            out.append({"h": "order", "params": {"policy": pol, "L": 5, "n": 3, "shrink": True}})
            out.append({"h": "order", "params": {"policy": pol, "L": 5, "n": 4}})
        for start in ("unlimited", "largest" if pol == "lru" else "lru"):
            out.append({"h": "order", "params": {"policy": pol, "L": 4 if tier == "quick" else 5, "start": start}})
    out.append({"h": "order", "params": {"policy": "unlimited", "L": 4}})
    return out
