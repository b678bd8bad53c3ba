"""C14: the disk cache only ever deletes its own entries."""
import os
import shutil

from ._disk import Crash, D, Fault, World

TECHNIQUE = "symbolic execution of the instrumented source + z3 (all histories; symbolic sizes, limits and matchers), on the real sqlite and file system, every deletion recorded"
LEVEL_NOTE = (
    "Complete for every size, limit and size-based matcher over all histories of the stated length in a directory surrounded by files of others; "
    "trusts z3 and the instrumentation (paths replayed on the plain package)."
)
BOUNDS = (
    "histories of 3 (thorough 4) operations (requests of 3 items, forced or failing, change of the limit, purge with a matcher on size, owner or arguments, purge of "
    "all), sizes 0..200, limits and thresholds symbolic; next to files, directories and symbolic links of others inside and outside the directory; a database copied "
    "from another directory; 14 spellings of paths in and out of the directory"
)
OUTSIDE = "longer histories; files of others in the directory older than two minutes (the cache owns its directory and may delete them)"
ASSUMPTIONS = []
REQUIRED_UNION = ["outside", "purge-exact", "purge-all", "others-kept", "only-entries", "refuses-outside"]
SCHED = True
DISK = True


def snapshot(top, skip=()):
    out = {}
    for base, dirs, files in os.walk(top):
        dirs[:] = sorted(d for d in dirs if os.path.join(base, d) not in skip)
        for f in dirs + files:
            p = os.path.join(base, f)
            if p in skip:
                continue
            if os.path.islink(p):
                out[p] = ("link", os.readlink(p))
            elif os.path.isdir(p):
                out[p] = "dir"
            else:
                with open(p, "rb") as fh:
                    out[p] = fh.read()
    return out


def surroundings(w):
    """files of others around the cache directory, and links to them inside it"""
    r = w.root
    for d in ("outside", w.dir + "-old", os.path.join("outside", "sub")):
        os.makedirs(os.path.join(r, d), exist_ok=True)
    for f in ("outside/a", "outside/sub/b", w.dir + "-old/c", w.dir + ".bak"):
        with open(os.path.join(r, f), "w") as fh:
            fh.write("not yours " + f[-3:])
    os.symlink(os.path.join(r, "outside", "a"), os.path.join(w.dir, "link-file"))
    os.symlink(os.path.join(r, "outside"), os.path.join(w.dir, "link-dir"))
    for n in ("link-file", "link-dir"):
        t = 10**9
        os.utime(os.path.join(w.dir, n), (t, t), follow_symlinks=False)
    # the age of what they lead to is what counts
    for f in ("outside/a", "outside"):
        w.age(os.path.join(r, f))
    with open(os.path.join(w.dir, "young"), "w") as fh:
        fh.write("in use")
    # changed less than two minutes ago, less the time this takes
    w.age(os.path.join(w.dir, "young"), w.cx.int("young", 0, 80) if w.cx.p("young") else 0)


KINDS = [("own", 0), ("own", 1), ("else", 2)]


class Small:
    """items whose files may be empty"""

    def __init__(self, cx, w):
        self.cx, self.w = cx, w

    def put(self, path, tag, size):
        with open(path, "w") as f:
            if self.cx.symbolic:
                f.write(tag)
            else:
                f.write("." * size)
        if self.cx.symbolic:
            D.sizes[os.path.realpath(path)] = size


def history(cx):
    limit = cx.int("limit", 0, 300) if cx.p("limit") else None
    w = World(cx, maximum_cache_size=limit)
    surroundings(w)
    w.start()
    outside = snapshot(w.root, skip=(w.dir,))
    hist = []
    have = {}  # item -> (path, size)
    known = set()
    sizes = [cx.int("size%d" % i, 0, 200) for i in range(3)]

    def request(i, fail=None, force=None):
        owner, n = KINDS[i]

        def create(target, args):
            Small(cx, w).put(target, "i%d" % i, sizes[i])
            if fail:
                raise Fault("x")

        try:
            p = w.caching.cache_file(owner, create, {"n": n}, force=force)
            have[i] = (p, sizes[i])
            known.add(p)
        except Fault:
            have.pop(i, None)

    def audit():
        w.sync()
        cx.check(not D.escaped, "outside", [hist, D.escaped])
        cx.check(snapshot(w.root, skip=(w.dir,)) == outside, "outside", hist)
        cx.check(os.path.exists(os.path.join(w.dir, "young")), "others-kept", hist)
        mine = set(known) | {os.path.join(w.dir, n) for n in ("link-file", "link-dir")}
        bad = [p for p in D.removed if p not in mine and p.split(".cache")[0] + ".cache" not in mine and not p.split(".cache")[0].startswith(tuple(os.path.join(w.dir, o + "-") for o in ("own", "else")))]
        cx.check(not bad, "only-entries", [hist, bad])

    for step in range(cx.p("L")):
        ops = ["get"] + (["fail", "force", "match", "all"] if have else []) + (["limit"] if have and cx.p("limit") else [])
        op = cx.choice("op%d" % step, ops)
        if op in ("get", "fail", "force"):
            i = cx.choice("item%d" % step, list(range(min(3, len(have) + 1))) if op == "get" else sorted(have))
            hist.append([op, i])
            request(i, fail=op == "fail", force=True if op in ("force", "fail") else None)
        elif op == "limit":
            hist.append([op])
            w.set(maximum_cache_size=cx.int("limit%d" % step, 0, 300))
        elif op == "match":
            how = cx.choice("how%d" % step, ["size", "owner", "args", "none"])
            t = cx.int("t%d" % step, 0, 200) if how == "size" else None
            hist.append([op, how])
            matcher = {
                "size": lambda e: (e["size"] or 0) > t,
                "owner": lambda e: e["owner"] == "own",
                "args": lambda e: (e["args"] or {}).get("n") == 2,
                "none": lambda e: False,
            }[how]
            w.sync()
            before = {i: v for i, v in have.items() if os.path.exists(v[0])}
            w.cache.purge(matcher=matcher)
            for i, (p, s) in before.items():
                hit = {"size": lambda: s > t, "owner": lambda: i in (0, 1), "args": lambda: i == 2, "none": lambda: False}[how]()
                gone = not os.path.exists(p)
                cx.check(cx.iff(hit, gone), "purge-exact", [hist, i, hit, gone])
                cx.check((p in [e["path"] for e in w.cache.entries()]) is not gone, "purge-exact", [hist, i])
                if gone:
                    del have[i]
        else:
            hist.append([op])
            w.cache.purge()
            left = [x for x in w.files() if x != "young" and not x.endswith((".lock", ".tmp"))]
            cx.check(not left, "purge-all", [hist, left, sizes])
            cx.check(w.cache.entries() == [], "purge-all", hist)
            cx.check(w.cache.summary_dump_database() == (0, 0), "purge-all", hist)
            have.clear()
        audit()
        for i in [i for i in have if not os.path.exists(have[i][0])]:
            del have[i]
    cx.sample(hist=hist, sizes=sizes)


def copied(cx):
    """the database was copied, with its files, from another directory: that directory is not ours"""
    name = cx.choice("name", ["cache-old", "cach", "other", os.path.join("cache", "inner")])
    w = World(cx, name=name)
    w.start()
    sizes = [cx.int("size%d" % i, 4, 200) for i in range(2)]
    paths = [w.get("own", {"n": i}, "%da" % i, sizes[i]) for i in range(2)]
    w.sync()
    new = os.path.join(w.root, "new" if name.startswith("cache" + os.sep) else "cache")
    w.conf["user-cache-directory"] = new
    old = w.dir
    from symx.disk import kill

    kill()
    shutil.copytree(old, new)
    w.dir = new
    keep = snapshot(old)
    limit = cx.int("limit", 0, 300)
    w.start()
    op = cx.choice("op", ["purge", "match", "limit", "get"])
    if op == "purge":
        r, e = cx.try_(w.cache.purge)
    elif op == "match":
        r, e = cx.try_(w.cache.purge, matcher=lambda e: True)
    elif op == "limit":
        r, e = cx.try_(w.set, maximum_cache_size=limit)
    else:
        p = w.get("own", {"n": 0}, "0b", sizes[0])
        cx.check(p.startswith(new + os.sep), "outside", p)
    now = snapshot(old)
    for n in list(keep):
        if os.path.basename(n).startswith("cache-2.db"):
            keep.pop(n), now.pop(n, None)
    cx.check(now == keep, "outside", [name, op, sorted(set(keep) - set(now))])
    cx.check(not D.escaped, "outside", D.escaped)


SPELL = [
    ("{d}/x", True),
    ("{d}/sub/x", True),
    ("{d}//x", True),
    ("{d}/./x", True),
    ("{d}/..x", True),
    ("{d}/sub/../x", True),
    ("{d}", False),
    ("{d}/", False),
    ("{d}-old/c", False),
    ("{d}.bak", False),
    ("{d}/../outside/a", False),
    ("{d}/../cache-old/c", False),
    ("{r}/outside/a", False),
    ("{r}/outside/sub", False),
    ("{d}/sub/../../outside/a", False),
]


def paths(cx):
    """deleting or registering by path stays inside the directory, however the path is spelt"""
    w = World(cx)
    surroundings(w)
    w.start()
    os.makedirs(os.path.join(w.dir, "sub"))
    p = w.get("own", {"n": 0}, "0a", cx.int("size", 4, 200))
    w.sync()
    outside = snapshot(w.root, skip=(w.dir,))
    spell, inside = cx.choice("spell", SPELL)
    path = spell.format(d=w.dir, r=w.root)
    if inside:
        with open(path, "w") as f:
            f.write("x")
    op = cx.choice("op", ["decache", "register"])
    if op == "decache":
        r, e = cx.try_(w.cache._decache_file, path)
        if inside:
            cx.check(e is None and not os.path.exists(path), "only-entries", [spell, e])
    else:
        r, e = cx.try_(w.cache._register_cache_file, path, "own", {})
        cx.check((e is None) is inside, "refuses-outside", [spell, repr(e)])
        cx.try_(w.cache.purge)
    cx.check(snapshot(w.root, skip=(w.dir,)) == outside, "outside", [spell, op])
    cx.check(not D.escaped, "outside", [spell, D.escaped])
    cx.check(os.path.isdir(w.dir), "outside", [spell, op])


HARNESS = {"history": history, "copied": copied, "paths": paths}


def jobs(tier):
    q = tier == "quick"
    return [
        {"h": "history", "params": {"L": 3 if q else 4}},
        *({"h": "history", "params": {"L": 3, "limit": True, "fix": {"op1": o}}} for o in ("get", "fail", "force", "match", "all", "limit")),
        {"h": "history", "params": {"L": 2, "limit": True, "young": True}, "fp": "real"},
        {"h": "copied"},
        {"h": "paths"},
    ]
