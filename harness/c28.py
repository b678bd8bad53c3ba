"""C28: the disk cache is correct under concurrent requests."""
import os

from symx.sched import Deadlock

from ._disk import D, Fault, World
from ._threads import Race

TECHNIQUE = "symbolic execution of the instrumented source + z3 with symbolic preemption points (every statement of caching.py and every effect on the disk), on the real sqlite, file locks and file system"
LEVEL_NOTE = (
    "Complete for all schedules of two requesters with up to two (thorough: three for the shorter ones) preemptions; the worker thread of the cache runs when a requester "
    "waits for it; trusts z3, the scheduler and the instrumentation (schedules replayed on the plain package)."
)
BOUNDS = "two threads, 1-2 requests each (plain, forced, failing), the same or different items, policies user and off, up to 2 preemptions at any statement of caching.py or effect on the disk"
OUTSIDE = "more threads or preemptions; preemption within a statement or of the worker thread; several processes (they coordinate through the same lock files and database); limits and purges during a creation"
ASSUMPTIONS = ["a statement of caching.py is not interrupted half-way unless it calls into caching.py or the disk"]
REQUIRED_UNION = ["once", "complete", "undisturbed", "ends", "books"]
SCHED = True
DISK = True


def race(cx):
    plan = cx.p("plan")  # per thread: list of requests "0", "0f" (forced), "0x" (fails)
    policy = cx.p("policy", "user")
    w = World(cx, policy=policy, temporary_directory_root=None)
    w.conf["temporary-directory-root"] = os.path.join(w.root, "scratch")
    w.start()
    if cx.p("before"):
        w.get("own", {"item": 0}, "0y", 10)
        w.sync()
        w.made.clear()
    active = {}
    log = []

    def stale(args, path, owner_data):
        return (owner_data or {}).get("version") != "new"

    def request(t, n, op):
        i, how = int(op[0]), op[1:]
        tag = "%d%s" % (i, "abcdefgh"[2 * t + n])

        def create(target, args):
            w.made.append(tag)
            # at no time are two creations of an item under way
            active[i] = active.get(i, 0) + 1
            try:
                if policy != "off":
                    cx.check(active[i] == 1, "once", [plan, r.hist])
                if how == "x":
                    with open(target, "w") as f:
                        f.write(tag)
                    raise Fault(tag)
                w.put(target, tag, 10)
                from symx.disk import point

                point("done")
                return {"version": "new"}
            finally:
                active[i] -= 1

        try:
            force = {"f": True, "c": stale}.get(how)
            p = w.caching.cache_file("own", create, {"item": i}, force=force)
        except Fault as e:
            log.append((t, n, op, None, str(e)))
            return
        # what the requester reads at once, and later
        log.append((t, n, op, p, w.read(p)))

    def thread(t):
        def f():
            for n, op in enumerate(plan[t]):
                request(t, n, op)
            return "done"

        return f

    r = Race(cx, ["utils/caching.py"], [thread(t) for t in range(len(plan))], cx.p("switches", 1), functions=cx.p("functions"), part=cx.p("part", (0, 1)))
    try:
        res = r.run()
    except Deadlock as e:
        cx.fail("ends", [plan, r.hist, str(e)])
        return
    for v, e in res:
        if e is not None and os.environ.get("SYMX_TB"):
            import traceback

            traceback.print_exception(e)
        cx.check(e is None and v == "done", "undisturbed", [plan, r.hist, repr(e)])
    w.sync() if policy != "off" else None
    ops = [op for p in plan for op in p]
    forced = any(op.endswith("f") for op in ops)
    stales = any(op.endswith("c") for op in ops)
    for i in sorted({int(op[0]) for op in ops}):
        made = [m for m in w.made if m[0] == str(i)]
        mine = [x for x in log if x[2][0] == str(i)]
        for t, n, op, p, c in mine:
            if op[1:] == "x" and c is not None and p is None:
                continue
            if c is None and forced:
                continue  # another requester wants a new file: the one of before is gone
            cx.check(c is not None and c[0] == str(i), "complete", [plan, r.hist, log])
        if policy == "off":
            cx.check(len({x[3] for x in mine}) == len(mine), "once", [plan, log])
            continue
        fails = sum(op == "%dx" % i for op in ops)
        if not forced:
            cx.check(len(made) <= (0 if cx.p("before") and not stales else 1 + fails), "once", [plan, r.hist, made])
            good = [x for x in mine if x[3] is not None]
            cx.check(len({(x[3], x[4]) for x in good}) <= 1, "complete", [plan, r.hist, log])
        else:
            cx.check(len(made) <= len([op for op in ops if int(op[0]) == i]), "once", [plan, r.hist, made])
    if policy != "off":
        es = {e["path"]: e for e in w.cache.entries()}
        paths = {x[3] for x in log if x[3]}
        cx.check(set(es) == paths, "books", [plan, r.hist, sorted(es), sorted(paths)])
        for p in paths:
            cx.check(w.read(p) is not None, "complete", [plan, r.hist])
            cx.check(es[p]["size"] == 10, "books", [plan, r.hist, es[p]["size"]])
            n = sum(1 for x in log if x[3] == p) + (1 if cx.p("before") else 0)
            if not forced and not stales and not any(op.endswith("x") for op in ops):
                cx.check(es[p]["accesses"] == n, "books", [plan, r.hist, es[p]["accesses"], n])
        cx.check(not [f for f in w.files() if f.endswith(".tmp")] or any(op.endswith("x") for op in ops), "books", w.files())
    cx.check(not D.escaped, "undisturbed", D.escaped)
    cx.check(True, "ends")
    cx.sample(plan=plan, hist=r.hist, log=log)


HARNESS = {"race": race}


def jobs(tier):
    q = tier == "quick"
    out = []
    body = ["cache_file", "create"]

    def job(plan, before=False, switches=1, **kw):
        parts = {1: 1, 2: 4, 3: 16}[switches]
        for i in range(parts):
            out.append({"h": "race", "params": {"plan": plan, "before": before, "switches": switches, "part": (i, parts), **kw}})

    for plan, before in (
        ([["0"], ["0"]], False),
        ([["0"], ["1"]], False),
        ([["0x"], ["0"]], False),
        ([["0"], ["0x"]], False),
        ([["0"], ["0"]], True),
        ([["0f"], ["0"]], True),
        ([["0c"], ["0c"]], True),
        ([["0"], ["0f"]], False),
    ):
        job(plan, before, switches=2 if not q or plan in ([["0"], ["0"]], [["0x"], ["0"]], [["0c"], ["0c"]]) else 1, functions=body)
        if not q:
            job(plan, before, switches=1)
    job([["0"], ["0"]], policy="off", switches=1)
    job([["0"], ["0"]], switches=1)
    job([["0", "1"], ["1", "0"]], switches=1, functions=body)
    if not q:
        job([["0"], ["0"]], switches=3, functions=body)
        job([["0c"], ["0c"]], True, switches=3, functions=body)
        job([["0", "1"], ["1", "0"]], switches=2, functions=body)
        job([["0", "0f"], ["0"]], switches=3, functions=body)
        job([["0"], ["0"], ["0"]], switches=2, functions=body)
    return out
