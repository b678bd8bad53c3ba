"""C30: a matrix is requested from MIR for exactly the grids and coordinates given."""
import os
import pathlib

from symx.ctx import mod

from . import c22
from ._mirlib import Mir

TECHNIQUE = "symbolic execution of the instrumented source + z3 (symbolic coordinates; recording stand-in for the MIR library; symbolic failure point)"
LEVEL_NOTE = (
    "Complete for all coordinate values, option values and failure points within the stated bounds. The MIR library is replaced by a "
    "stand-in that records the job and writes a weights file; what MIR computes is outside."
)
BOUNDS = (
    "1-2 (thorough 3) coordinates per grid given as list or tuple with symbolic values, and numpy arrays of up to 1200 points differing in one value; two requests over one MIR cache; "
    "every combination of the six grid arguments; a write failing at any of its steps; output str / Path / none, .npz / .mat / other"
)
OUTSIDE = "what the MIR library does with the job; grids whose MIR text the yaml library would write differently"
ASSUMPTIONS = ["md5 is collision free", "the MIR library reads a griddef file as version, count, then latitude and longitude of each point"]
REQUIRED_UNION = ["griddef", "griddef-order", "spec", "options", "rejected", "mat", "npz", "returned", "failed", "nothing-written", "interrupted", "no-litter"]


def griddef(cx, path):
    """The coordinates of a griddef file."""
    b = cx.content(path)
    cx.check(len(b) >= 10 and (len(b) - 10) % 18 == 0, "griddef", ["length", len(b)])
    cx.check(cx.and_(b[0] == 10, cx.unpack("!L", b[1:5])[0] == 1, b[5] == 10), "griddef", "header")
    n = (len(b) - 10) // 18
    cx.check(cx.unpack("!L", b[6:10])[0] == n, "griddef", "count")
    out = []
    for i in range(n):
        q = b[10 + 18 * i : 28 + 18 * i]
        for p in (q[:9], q[9:]):
            cx.check(p[0] == 14, "griddef", "tag")
            # low word first
            out.append(cx.unpack_float(cx.join([p[5:9], p[1:5]])))
    return out[0::2], out[1::2]


def expect(cx, path, lats, lons, info=None):
    la, lo = griddef(cx, path)
    cx.check(len(la) == len(lats), "griddef", [info, len(la), len(lats)])
    cx.check(cx.and_(*[x == y for x, y in zip(la, lats)], *[x == y for x, y in zip(lo, lons)]), "griddef-order", [info, la, lats, lo, lons])


def coords(cx, name, n):
    return [cx.float("%s%d" % (name, i), -1000, 1000) for i in range(n)]


def wrap(kind, xs):
    return tuple(xs) if kind == "tuple" else list(xs)


def points(cx):
    """Two requests over one cache: each is given its own coordinates."""
    cache = os.path.join(cx.dir(), "c")
    os.makedirs(cache)
    seen = []

    def work(job):
        seen.append(job)
        with open(job.get("interpolation-matrix"), "wb") as f:
            f.write(b"m")

    Mir(cx, cache, work)
    d = cx.dir()
    mk = mod("utils.mir").mir_make_matrix
    n1, n2 = cx.p("n")
    kind = cx.choice("kind", ["list", "tuple"])
    for k, n in enumerate((n1, n2)):
        la, lo = coords(cx, "lat%d." % k, n), coords(cx, "lon%d." % k, n)
        side = cx.choice("side%d" % k, ["in", "out", "both"])
        kw = {}
        ola, olo = [], []
        if side in ("in", "both"):
            kw.update(in_lat=wrap(kind, la), in_lon=wrap(kind, lo))
        else:
            kw.update(in_grid={"grid": [5, 5]})
        if side == "both":
            ola, olo = lo[::-1], la[::-1]
            kw.update(out_lat=wrap(kind, ola), out_lon=wrap(kind, olo))
        elif side == "out":
            ola, olo = la, lo
            kw.update(out_lat=wrap(kind, la), out_lon=wrap(kind, lo))
        else:
            kw.update(out_grid={"grid": [5, 5]})
        mk(output=os.path.join(d, "%d.mat" % k), **kw)
        job = seen[-1]
        if side in ("in", "both"):
            expect(cx, job.input.path, la, lo, [k, side, "in"])
        if side in ("out", "both"):
            expect(cx, job.get("griddef"), ola, olo, [k, side, "out"])
        cx.check((job.get("grid") is None) == (side != "in"), "spec", side)
        cx.check(hasattr(job.input, "spec") == (side == "out"), "spec", side)
    # both requests: still their own
    for f in os.listdir(cache):
        cx.check(f.endswith(".griddef"), "no-litter", f)


def arrays(cx):
    """Numpy arrays that differ in one value only, long or by a small amount."""
    import numpy as np

    cache = os.path.join(cx.dir(), "c")
    os.makedirs(cache)
    jobs = []

    def work(job):
        jobs.append(job)
        with open(job.get("interpolation-matrix"), "wb") as f:
            f.write(b"m")

    Mir(cx, cache, work)
    n = cx.choice("n", [1, 3, 1200])
    delta = cx.choice("delta", [1e-9, 0.5])
    at = cx.choice("at", [0, 0.5, 1])
    which = cx.choice("which", ["lat", "lon"])
    lat, lon = np.linspace(-60, 60, n), np.linspace(0, 300, n)
    la, lo = lat.copy(), lon.copy()
    (la if which == "lat" else lo)[int(at * (n - 1))] += delta
    d = cx.dir()
    for k, (x, y) in enumerate(((lat, lon), (la, lo))):
        mod("utils.mir").mir_make_matrix(in_lat=x, in_lon=y, out_grid={"grid": "H2"}, output=os.path.join(d, "%d.mat" % k))
        expect(cx, jobs[-1].input.path, x.tolist(), y.tolist(), [n, delta, at, which, k])


def counts(cx):
    """Coordinates that do not belong together are refused, however the cache looks."""
    cache = os.path.join(cx.dir(), "c")
    os.makedirs(cache)
    rec = Mir(cx, cache, lambda job: open(job.get("interpolation-matrix"), "wb").close())
    mk = mod("utils.mir").mir_make_matrix
    d = cx.dir()
    n1, n2 = cx.choice("nlat", [0, 1, 2, 3]), cx.choice("nlon", [0, 1, 2, 3])
    la, lo = coords(cx, "lat", n1), coords(cx, "lon", n2)
    if n1 + n2 == 4 and cx.bool("before"):
        # a proper grid of the same numbers was used before
        xs = la + lo
        cx.try_(mk, in_lat=xs[:2], in_lon=xs[2:], out_grid={"grid": [5, 5]}, output=os.path.join(d, "0.mat"))
    njobs = len(rec.jobs)
    side = cx.choice("side", ["in", "out"])
    kw = {"in_lat": la, "in_lon": lo, "out_grid": {"grid": [5, 5]}} if side == "in" else {"out_lat": la, "out_lon": lo, "in_grid": {"grid": [5, 5]}}
    r, e = cx.try_(mk, output=os.path.join(d, "1.mat"), **kw)
    bad = n1 != n2 or n1 == 0
    cx.check((e is not None) == bad, "rejected", [n1, n2, e])
    if bad:
        cx.check(isinstance(e, ValueError), "rejected", [n1, n2, e])
        cx.check(not any(hasattr(j, "input") for j in rec.jobs[njobs:]), "rejected", "executed")


def args(cx):
    """Which of the grid arguments are given decides what MIR is asked for."""
    cache = os.path.join(cx.dir(), "c")
    os.makedirs(cache)

    def work(job):
        with open(job.get("interpolation-matrix"), "wb") as f:
            f.write(b"m")

    rec = Mir(cx, cache, work)
    cx.yaml_text()
    give = {}
    dx, dy = cx.int("dx", 1, 90), cx.int("dy", 1, 90)
    gi, go = {"grid": [dx, dy]}, {"grid": [dy, dx], "area": [dx, 0, 0, dy]}
    la, lo = coords(cx, "lat", 1), coords(cx, "lon", 1)
    for side, g in (("in", gi), ("out", go)):
        if cx.bool(side + ".grid"):
            give[side + "_grid"] = g
        if cx.bool(side + ".lat"):
            give[side + "_lat"] = la
        if cx.bool(side + ".lon"):
            give[side + "_lon"] = lo
    opts = {}
    for k in ("interpolation", "nclosest"):
        if cx.bool("has." + k):
            opts[k] = cx.str(k, 1, 2, lo=97, hi=122) if k == "interpolation" else cx.int(k, 1, 99)
    out = os.path.join(cx.dir(), "o.mat")
    r, e = cx.try_(mod("utils.mir").mir_make_matrix, output=out, **give, **opts)

    def form(side):
        s = {k[len(side) + 1 :] for k in give if k.startswith(side)}
        return "grid" if s == {"grid"} else "points" if s == {"lat", "lon"} else None

    fi, fo = form("in"), form("out")
    if fi is None or fo is None:
        cx.check(isinstance(e, ValueError), "rejected", [sorted(give), e])
        cx.check(not any(hasattr(j, "input") for j in rec.jobs), "rejected", "executed")
        cx.check(not os.path.exists(out), "rejected", "written")
        return
    cx.check(e is None, "spec", [sorted(give), e])
    cx.check(len(rec.jobs) == 1, "spec", len(rec.jobs))
    j = rec.jobs[0]
    if fi == "grid":
        cx.check(cx.yaml(j.input.spec) == gi, "spec", j.input.spec)
    else:
        expect(cx, j.input.path, la, lo)
    if fo == "grid":
        cx.check(cx.yaml(j.get("grid")) == go and j.get("griddef") is None, "spec", j.opts)
    else:
        cx.check(j.get("grid") is None, "spec", j.opts)
        expect(cx, j.get("griddef"), la, lo)
    for k in ("interpolation", "nclosest"):
        v = j.get(k)
        if k in opts:
            cx.check(v is opts[k] or v == opts[k], "options", [k, v])
        else:
            cx.check(v is None, "options", [k, v])
    cx.check({k for k, v in j.opts} <= {"grid", "griddef", "interpolation-matrix", *opts}, "options", j.opts)
    cx.check(r is None and os.path.exists(out), "mat", [r])


def outputs(cx):
    """Where the matrix ends up, and what is left when MIR fails."""
    cache = os.path.join(cx.dir(), "c")
    os.makedirs(cache)
    little = cx.choice("little", [True, False])
    cols, ptr, idx, val = c22.matrix(cx, 2, 2, cmax=3)
    s = c22.write(cx, 2, cols, ptr, idx, val, little, 8)
    mode = cx.choice("mir", ["ok", "fails", "nothing"])
    name = cx.choice("output", ["a.npz", "a.b.npz", "a.mat", "a.txt", "a", None])
    aspath = name is not None and cx.bool("aspath")

    def work(job):
        if mode == "fails":
            raise OSError("MIR failed")
        if mode == "ok":
            cx.binfile(job.get("interpolation-matrix"), s.bytes())

    rec = Mir(cx, cache, work)
    d = cx.dir()
    out = None if name is None else os.path.join(d, name)
    r, e = cx.try_(
        mod("utils.mir").mir_make_matrix, in_grid={"grid": [5, 5]}, out_grid={"grid": [6, 6]}, output=pathlib.Path(out) if aspath else out
    )
    if name in ("a.txt", "a"):
        cx.check(isinstance(e, ValueError) and not rec.jobs, "rejected", [name, e])
        return
    if mode == "fails":
        cx.check(isinstance(e, RuntimeError), "failed", [name, e])
    elif mode == "nothing":
        cx.check(isinstance(e, FileNotFoundError), "nothing-written", [name, e])
    else:
        cx.check(e is None, "mat", [name, e])
    if mode != "ok":
        cx.check(os.listdir(d) == [], "no-litter", os.listdir(d))
        return
    target = rec.jobs[0].get("interpolation-matrix")
    if name is None:
        c22.same(cx, r, 2, cols, ptr, idx, val, 8)
        cx.cover("returned")
        cx.check(not os.path.exists(target), "no-litter", target)
        cx.check(os.listdir(d) == [], "no-litter")
        return
    cx.check(os.listdir(d) == [name], "no-litter", os.listdir(d))
    cx.check(r is None, "mat")
    if name.endswith(".mat"):
        cx.check(target == out, "mat", target)
        m = mod("utils.mir").mir_cached_matrix_to_array(out)
        c22.same(cx, m, 2, cols, ptr, idx, val, 8)
    else:
        m = c22.load(cx, out)
        cx.check(cx.and_(m.shape[0] == 2, m.shape[1] == cols), "npz", [m.shape])


def interrupted(cx):
    """Writing the coordinates fails half way: the next request writes them again."""
    cache = os.path.join(cx.dir(), "c")
    os.makedirs(cache)
    jobs = []

    def work(job):
        jobs.append(job)
        with open(job.get("interpolation-matrix"), "wb") as f:
            f.write(b"m")

    Mir(cx, cache, work)
    m = mod("utils.mir")
    n = 2
    la, lo = coords(cx, "lat", n), coords(cx, "lon", n)
    k = cx.choice("fails-at", list(range(16)))
    count = [0]

    class Disk:
        """a file on a disk that becomes full"""

        def __init__(self, f):
            self.f = f

        def write(self, b):
            count[0] += 1
            if count[0] > k:
                raise OSError("disk full")
            return self.f.write(b)

        def __getattr__(self, name):
            return getattr(self.f, name)

    real = m.Stream
    m.Stream = lambda f: real(Disk(f))
    d = cx.dir()
    kw = dict(in_lat=la, in_lon=lo, out_grid={"grid": [5, 5]})
    r, e = cx.try_(m.mir_make_matrix, output=os.path.join(d, "0.mat"), **kw)
    m.Stream = real
    if e is None:
        cx.check(len(jobs) == 1, "interrupted")
        expect(cx, jobs[-1].input.path, la, lo, k)
    else:
        cx.check(len(jobs) == 0, "interrupted", [k, "executed"])
    m.mir_make_matrix(output=os.path.join(d, "1.mat"), **kw)
    expect(cx, jobs[-1].input.path, la, lo, k)
    cx.cover("interrupted")


HARNESS = {"points": points, "arrays": arrays, "counts": counts, "args": args, "outputs": outputs, "interrupted": interrupted}


def jobs(tier):
    out = []
    top = 2 if tier == "quick" else 3
    for a in range(1, top + 1):
        for b in range(1, top + 1):
            out.append({"h": "points", "params": {"n": [a, b]}, "fp": "real"})
    for h in ("arrays", "counts", "args", "outputs", "interrupted"):
        out.append({"h": h, "params": {}, "fp": "real"})
    return out
