"""C13: disk cache limits are enforced by least recent use, protecting current use."""
import os

from symx import env

from ._disk import Crash, D, Fault, World

TECHNIQUE = "symbolic execution of the instrumented source + z3 (all histories; symbolic sizes, limits and disk usage), on the real sqlite and file system"
LEVEL_NOTE = (
    "Complete for every size, limit and disk usage over all histories of the stated length; the sums of sizes in SQL are evaluated symbolically, the "
    "rest of sqlite is real; trusts z3 and the instrumentation (paths replayed on the plain package with files of these sizes)."
)
BOUNDS = (
    "histories of 3 (thorough 4-5) operations (requests of up to 3 items, changes of the limit, an item vanishing, a failed or interrupted creation), with files left "
    "by others in the directory; sizes 4..200 and limits 5..600 bytes symbolic, one limit or the other or both"
)
OUTSIDE = "longer histories; files of others younger than two minutes; several processes using the directory at the same time"
ASSUMPTIONS = ["a file system of 1024 units (so that its percentages are exact in floating point)", "the clock does not go backwards", "what the process died in before the history is one creation"]
REQUIRED_UNION = ["within-limit", "least-recent-first", "no-more-than-needed", "keeps-current", "no-limit", "hit", "leftovers-first", "no-stale-file"]
SCHED = True
DISK = True

NITEM = 3


class Model:
    def __init__(self, cx, limit, usage):
        self.cx, self.limit, self.usage = cx, limit, usage
        self.size, self.last, self.path, self.version = {}, {}, {}, {}
        self.newest = None
        self.clock = 0
        self.orphans = {}

    def tick(self):
        self.clock += 1
        return self.clock


def percent(total, avail):
    return int(float(total - avail) / float(total) * 100 + 0.5)


def over(cx, m, w, extra=0):
    """the items take more than allowed, were there `extra` bytes more"""
    tot = 0 + extra
    for i in m.size:
        tot = tot + m.size[i]
    cs = []
    if m.limit is not None:
        cs.append(tot > m.limit)
    if m.usage is not None:
        # rounded to a percentage: more than usage + 0.5 percent are used
        cs.append(100 * (w.others + tot) >= m.usage * w.disk + w.disk / 2)
    return cx.or_(*cs) if cs else False


def settle(cx, w, m, hist, just=None, check_orphans=True):
    """What is left after the limits have been enforced."""
    w.sync()
    gone = [i for i in m.size if not os.path.exists(m.path[i])]
    gone_orphans = [p for p in m.orphans if not os.path.exists(p)]
    if m.limit is None and m.usage is None:
        cx.check(not gone and not gone_orphans, "no-limit", hist)
    cx.check(just is None or just not in gone, "keeps-current", [hist, gone])
    sizes = {i: m.size.pop(i) for i in gone}
    osizes = {p: m.orphans.pop(p) for p in gone_orphans}
    left = [i for i in m.size if i != m.newest]
    cx.check(cx.or_(not left, cx.not_(over(cx, m, w))), "within-limit", [hist, gone, m.size, m.limit])
    for i in gone:
        cx.check(all(m.last[i] < m.last[j] for j in left), "least-recent-first", [hist, gone, left])
    if gone:
        cx.check(not m.orphans, "leftovers-first", [hist, gone])
        e = max(gone, key=lambda i: m.last[i])
        cx.check(over(cx, m, w, sizes[e]), "no-more-than-needed", [hist, gone, sizes, m.size, m.limit])


def request(cx, w, m, i, hist, size, fail=None):
    tag = "%d%s" % (i, "abcdefgh"[len(hist)])
    before = len(w.made)
    try:
        p = w.get("own", {"item": i}, tag, size, fail=fail)
    except Fault:
        m.last[i] = m.tick()
        return False
    m.path[i] = p
    made = w.made[before:]
    m.last[i] = m.tick()
    if i in m.size:
        cx.check(not made, "hit", hist)
        cx.check(w.read(p) == m.version[i], "hit", hist)
        w.sync()
        return True
    cx.check(len(made) == 1, "no-stale-file", hist)
    m.size[i] = size
    m.version[i] = tag
    m.newest = i
    settle(cx, w, m, hist, just=i)
    cx.check(w.read(p) == tag, "keeps-current", hist)
    return True


def make(cx):
    mode = cx.p("mode", "size")
    limit = cx.int("limit", 5, 600) if mode in ("size", "both") else None
    usage = cx.int("usage", 1, 99) if mode in ("usage", "both") else None
    w = World(cx)
    w.conf["maximum-cache-size"] = limit
    w.conf["maximum-cache-disk-usage"] = usage
    w.disk = 1024
    w.others = cx.int("others", 0, 300) if usage is not None else 0
    m = Model(cx, limit, usage)

    def statvfs():
        used = w.others
        for p, s in present(w).items():
            used = used + s
        return env.Statvfs(total=w.disk, avail=w.disk - used)

    if usage is not None:
        env.DISK[0] = statvfs
        cx.on_exit(lambda: env.DISK.__setitem__(0, None))
    return w, m


def present(w):
    """sizes of the files of items in the directory (the database takes no space here)"""
    out = {}
    for n in sorted(os.listdir(w.dir)):
        p = os.path.join(w.dir, n)
        if n.startswith("cache-2.db"):
            continue
        out[p] = D.sizes.get(p, 0) if w.cx.symbolic else os.path.getsize(p)
    return out


def history(cx):
    w, m = make(cx)
    start = cx.p("start")
    if start == "orphans":
        for k in range(cx.p("orphans", 1)):
            p = os.path.join(w.dir, "left-%d.bin" % k)
            m.orphans[p] = cx.int("orphan%d" % k, 4, 200)
            w.put(p, "L%d" % k, m.orphans[p], points=False)
            w.age(p)
    w.start()
    hist = []
    size = [cx.int("size%d" % i, 4, 200) for i in range(NITEM)]
    used = []
    if start == "failed":
        request(cx, w, m, 2, ["failed"], 10, fail="half")
        hist.append("failed")
    elif start == "crashed":
        D.at = D.n + cx.int("died", 1, 30)
        try:
            w.get("own", {"item": 2}, "2z", 10)
            D.at = None
            cx.stop()
        except Crash:
            w.crash()
        left = [x for x in w.files() if x.endswith(".cache")]
        if left:
            # it had been published: it counts
            m.path[2] = os.path.join(w.dir, left[0])
            m.size[2], m.version[2], m.newest, m.last[2] = 10, "2z", 2, m.tick()
        hist.append("crashed")
    L = cx.p("L")
    for step in range(L):
        kinds = ["get"] + (["limit"] if used and step >= 1 and cx.p("limits") else []) + (["lost"] if step == L - 1 and m.size and cx.p("lost") else [])
        kind = cx.choice("op%d" % step, kinds)
        if kind == "get":
            n = min(cx.p("items", 2), max(used) + 2 if used else 1)
            i = cx.choice("item%d" % step, list(range(n)))
            used.append(i)
            hist.append(i)
            request(cx, w, m, i, hist, size[i])
        elif kind == "lost":
            i = cx.choice("lost%d" % step, sorted(m.size))
            hist.append("lost %d" % i)
            os.unlink(m.path[i])
            del m.size[i]
            size[i] = cx.int("resized%d" % step, 4, 200)
            # asked for again
            used.append(i)
            hist.append(i)
            request(cx, w, m, i, hist, size[i])
        else:
            hist.append("limit")
            if m.usage is None:
                m.limit = cx.int("limit%d" % step, 5, 600) if cx.choice("set%d" % step, [True, False]) else None
                w.set(maximum_cache_size=m.limit)
            else:
                m.usage = cx.int("usage%d" % step, 1, 99)
                w.set(maximum_cache_disk_usage=m.usage)
            settle(cx, w, m, hist)
    cx.check(not D.escaped, "keeps-current", D.escaped)
    cx.sample(hist=hist, limit=m.limit, sizes=size)


HARNESS = {"history": history}


def again(*items):
    out = {}
    for n, i in enumerate(items):
        out.update({"op%d" % n: "get", "item%d" % n: i})
    return out


def jobs(tier):
    q = tier == "quick"
    out = [
        {"h": "history", "params": {"L": 3 if q else 4, "items": 3}},
        {"h": "history", "params": {"L": 3 if q else 4, "items": 2, "limits": True}},
        {"h": "history", "params": {"L": 3, "items": 2, "lost": True}},
        # used again before the room runs out
        {"h": "history", "params": {"L": 4, "items": 3, "limits": True, "fix": again(0, 1, 0)}},
        {"h": "history", "params": {"L": 5, "items": 3, "limits": True, "fix": again(0, 1, 2, 0)}},
        {"h": "history", "params": {"L": 2 if q else 3, "items": 2, "start": "orphans", "orphans": 1}},
        {"h": "history", "params": {"L": 2, "items": 2, "start": "orphans", "orphans": 2}},
        {"h": "history", "params": {"L": 2 if q else 3, "items": 2, "start": "failed"}},
        {"h": "history", "params": {"L": 2 if q else 3, "items": 2, "start": "crashed"}},
        {"h": "history", "params": {"L": 3, "items": 2 if q else 3, "mode": "usage"}},
        {"h": "history", "params": {"L": 3, "items": 2, "mode": "usage", "limits": True}},
        {"h": "history", "params": {"L": 2 if q else 3, "items": 2, "mode": "both"}},
    ]
    for j in out:
        if j["params"].get("mode"):
            j["fp"] = "real"
    return out
