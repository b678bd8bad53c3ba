"""C31: the disk cache is where, and as large as, the configuration in force says."""
import os

from symx.ctx import mod

from ._disk import D, World

TECHNIQUE = "symbolic execution of the instrumented source + z3 (all sequences of configuration changes; symbolic sizes and limits), on the real sqlite and file system"
LEVEL_NOTE = (
    "Complete for all sequences of configuration changes of the stated length with requests in between, and all sizes and limits within the bounds; trusts z3 and "
    "the instrumentation (paths replayed on the plain package)."
)
BOUNDS = (
    "each policy to start with, then 2 (thorough 3) changes out of: policy (user, temporary, off), each of the three directory settings to one of two places "
    "(one written with ~), limit set or removed, by set or by entering a temporary configuration, or leaving one; requests of 2 items after each change, and again "
    "once everything entered has been left; sizes 4..200 and limits 5..600 bytes symbolic"
)
OUTSIDE = "longer sequences; directory settings of None (the system's temporary directory); directories that cannot be created"
ASSUMPTIONS = []
REQUIRED_UNION = ["place", "root", "same-place", "hit", "fresh", "content", "others", "within-limit", "no-limit", "kept"]
SCHED = True
DISK = True

SETTING = {"user": "user-cache-directory", "temporary": "temporary-cache-directory-root", "off": "temporary-directory-root"}


CHANGES = ["cache-policy " + p for p in SETTING] + ["%s %d" % (k, i) for k in SETTING.values() for i in (0, 1)] + ["maximum-cache-size limit", "maximum-cache-size none"]


class Run:
    def __init__(self, cx):
        self.cx = cx
        w = self.w = World(cx, policy=cx.p("start"))
        home = os.environ.get("HOME")
        os.environ["HOME"] = w.root
        cx.on_exit(lambda: os.environ.__setitem__("HOME", home) if home is not None else os.environ.pop("HOME"))
        self.places = {}
        for k, n in (("user-cache-directory", "u"), ("temporary-cache-directory-root", "t"), ("temporary-directory-root", "s")):
            self.places[k] = [(os.path.join(w.root, n + "0"),) * 2, ("~/" + n + "1", os.path.join(w.root, n + "1"))]
            w.conf[k] = self.places[k][0][0]
        self.base = {"cache-policy": cx.p("start"), "maximum-cache-size": None, **{k: 0 for k in self.places}}
        self.stack = []
        self.where = None  # what decides the place, and the directory it stands for
        self.items = {}  # by directory: item -> (path, tag)
        self.handed = []
        self.n = 0
        self.size = [cx.int("size%d" % i, 4, 200) for i in range(2)]

    def inforce(self, k):
        for s in reversed(self.stack):
            if k in s:
                return s[k]
        return self.base[k]

    def value(self, k, v):
        return self.places[k][v][0] if k in self.places else v

    def listing(self):
        out = set()
        for k in self.places:
            for _, d in self.places[k]:
                for top, ds, fs in os.walk(d):
                    out.update(os.path.join(top, f) for f in fs if not f.startswith("cache-2.db"))
        return out

    def look(self, hist):
        """requests of both items under the configuration in force"""
        cx, w = self.cx, self.w
        pol = self.inforce("cache-policy")
        root = self.places[SETTING[pol]][self.inforce(SETTING[pol])][1]
        limit = self.inforce("maximum-cache-size")
        d = w.cache.directory()
        info = [hist, pol, root, d]
        if pol == "user":
            cx.check(d == root, "place", info)
        else:
            cx.check(os.path.dirname(d) == root and os.path.isdir(d), "root", info)
        if self.where is not None and self.where[0] == (pol, root):
            cx.check(d == self.where[1], "same-place", info)
            if pol == "off":
                for p, t in self.handed:
                    cx.check(w.read(p) == t, "kept", info)
        else:
            self.handed = []
            if pol != "user":
                cx.check(d not in self.items and not [x for x in os.listdir(d) if not x.startswith("cache-2.db")], "same-place", info)
        self.where = ((pol, root), d)
        have = self.items.setdefault(d, {})
        self.settle(have, d, limit, None, info)
        for i in (0, 1):
            before = len(w.made)
            listing = self.listing()
            self.n += 1
            tag = "%d_%d" % (i, self.n)
            p = w.get("own", {"item": i}, tag, self.size[i])
            w.sync() if pol != "off" else None
            made = len(w.made) - before
            cx.check(os.path.dirname(p) == d, "place", info)
            new = self.listing() - listing
            cx.check(all(x.startswith(d + os.sep) for x in new), "others", [info, sorted(new)])
            lost = listing - self.listing()
            cx.check(all(x.startswith(d + os.sep) for x in lost), "others", [info, sorted(lost)])
            if pol == "off":
                cx.check(made == 1 and p not in listing, "fresh", info)
                self.handed.append((p, tag))
                cx.check(w.read(p) == tag, "content", info)
                continue
            if i in have:
                cx.check(made == 0 and p == have[i][0], "hit", info)
            else:
                cx.check(made == 1, "fresh", info)
                have[i] = (p, tag)
                have["newest"] = i
                self.settle(have, d, limit, i, info)
            cx.check(w.read(p) == have[i][1], "content", info)

    def settle(self, have, d, limit, just, info):
        cx = self.cx
        gone = [i for i in (0, 1) if i in have and not os.path.exists(have[i][0])]
        if limit is None:
            cx.check(not gone, "no-limit", info)
        for i in gone:
            del have[i]
        left = [i for i in (0, 1) if i in have]
        tot = 0
        for i in left:
            tot = tot + self.size[i]
        if limit is not None:
            cx.check(cx.or_(tot <= limit, left == [have.get("newest")]), "within-limit", [info, left, limit])
        cx.check(just is None or just in left, "content", info)


def history(cx):
    run = Run(cx)
    w = run.w
    w.start()
    config = mod().config
    hist = []
    run.look(hist)
    opened = []
    for step in range(cx.p("L")):
        opts = ["%s %s" % (h, c) for h in ("set", "enter") for c in CHANGES] + (["leave"] if opened else [])
        how, k, v = (cx.choice("op%d" % step, opts) + " - -").split(" ")[:3]
        if k in run.places:
            v = int(v)
        if how == "leave":
            opened.pop().__exit__(None, None, None)
            run.stack.pop()
        else:
            if k == "maximum-cache-size":
                v = cx.int("limit%d" % step, 5, 600) if v == "limit" else None
            if how == "enter":
                c = config.temporary({k: run.value(k, v)})
                c.__enter__()
                opened.append(c)
                run.stack.append({k: v})
            else:
                config.set({k: run.value(k, v)})
                (run.stack[-1] if run.stack else run.base)[k] = v
        hist.append([how, k, "limit" if k == "maximum-cache-size" and v is not None else v])
        run.look(hist)
    while opened:
        opened.pop().__exit__(None, None, None)
        run.stack.pop()
        hist.append("leave")
        run.look(hist)
    cx.check(not D.escaped, "others", D.escaped)
    cx.sample(hist=hist)


HARNESS = {"history": history}


def jobs(tier):
    q = tier == "quick"
    out = []
    for start in ("user", "temporary", "off"):
        for how in ("set", "enter"):
            for c in CHANGES:
                if q and (c.endswith(" 0") or c.endswith(" none") or c.endswith(" " + start)):
                    continue  # no change yet
                out.append({"h": "history", "params": {"start": start, "L": 2 if q else 3, "fix": {"op0": how + " " + c}}})
    return out
