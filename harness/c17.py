"""C17: the remote index and matrices are refetched exactly when out of date."""
import gzip
import hashlib
import json
import os
import shutil

from symx.ctx import mod

from ._disk import World

TECHNIQUE = "symbolic execution of the instrumented source + z3 over histories of requests, remote changes and failing downloads, against a model of the remote; real sqlite and files"
LEVEL_NOTE = "Complete for all such histories within bounds; the network library (multiurl) is replaced by its contract; trusts z3 and the instrumentation (histories replayed on the plain package)."
BOUNDS = (
    "histories of 3-4 (thorough 5) steps out of: requests of 2-3 grids, a new remote index, a changed matrix file, a new process; at most one failing download (refused, cut, or "
    "damaged gzip) at any point; every combination of check-out-of-date-urls and download-out-of-date-urls; symbolic weights"
)
OUTSIDE = "HTTP itself (headers, resuming, retries), several remotes changing at once, other processes refreshing at the same time"
ASSUMPTIONS = ["multiurl.Downloader as documented: download(target) writes the file or raises, cache_data() describes it, out_of_date() compares that with the remote"]
REQUIRED_UNION = ["answer", "missing", "index-current", "index-once", "matrix-current", "matrix-once", "fails", "usable"]
SCHED = True
DISK = True

BASES = {"url": "https://remote.test/inv", "slash": "http://remote.test/inv/", "system": "https://sites.ecmwf.int/repository/earthkit/regrid/db/1/"}
OUT = {"grid": [10, 10]}


class Refused(Exception):
    pass


class Remote:
    """What is published at a url, and how often it was fetched."""

    def __init__(self, cx, base, ngrids, tag="w"):
        self.cx, self.base, self.n, self.tag = cx, base.rstrip("/"), ngrids, tag
        self.dir = cx.dir()
        self.version = 0
        self.rev = {}
        self.w = {}
        self.log = []
        self.fetches = 0
        self.fail_at, self.kind = None, None
        self.publish(0)

    def grids(self, version):
        """grid 0 was always there, each version adds one"""
        return list(range(min(version + 1, self.n)))

    def publish(self, version):
        self.version = version
        matrix = {}
        for g in self.grids(version):
            matrix["n%d" % g] = {
                "input": {"grid": "O%d" % (g + 1), "shape": [1]},
                "output": {"grid": [10, 10], "shape": [1, 1]},
                "interpolation": {"engine": "mir", "version": 16, "method": "linear"},
                "memory": 20,
            }
            if g not in self.rev:
                self.store(g, 0)
        s = json.dumps({"version": 1, "matrix": matrix}, indent=version % 3)
        self.index = s.encode()
        self.sha = hashlib.sha256(self.index).hexdigest()

    def store(self, g, rev):
        self.rev[g] = rev
        self.w[g, rev] = self.cx.float("%s%d_%d" % (self.tag, g, rev), -1000, 1000)
        self.cx.matrix(os.path.join(self.dir, "%d_%d.npz" % (g, rev)), [[self.w[g, rev]]], (1, 1))

    def etag(self, name):
        return "%s-%d" % (name, self.rev[int(name[1:])]) if name.startswith("n") else "%s-%d" % (name, self.version)

    def fetch(self, url, target, partial):
        cx = self.cx
        if not url.startswith(self.base + "/"):
            raise Refused("no such host: " + url)
        rest = url[len(self.base) + 1 :]
        name = {"index.json": "index", "index.json.gz": "gz", "index.json.sha256": "sha"}.get(rest)
        if name is None:
            d, f = os.path.split(rest)
            name = f[: -len(".npz")]
            if d != "mir_16_linear" or not f.endswith(".npz") or int(name[1:]) not in self.rev:
                raise Refused("not found: " + url)
        self.log.append(name)
        k = self.fetches
        self.fetches += 1
        bad = self.kind if self.fail_at is not None and self.fail_at == k else None
        if bad == "refused" or (bad == "damaged" and name != "gz"):
            self.failed = name
            raise Refused(url)
        if name == "gz":
            data = gzip.compress(self.index)
        elif name == "index":
            data = self.index
        elif name == "sha":
            data = (self.sha + "\n").encode()
        else:
            data = None
        out = target if bad != "cut" else partial
        if bad:
            self.failed = name
        if data is None:
            shutil.copyfile(os.path.join(self.dir, "%s_%d.npz" % (name[1:], self.rev[int(name[1:])])), out)
        else:
            if bad:
                data = data[: len(data) // 2]
            with open(out, "wb") as f:
                f.write(data)
        if bad == "cut":
            raise Refused("cut: " + url)


def install(remotes):
    import multiurl

    class Downloader:
        def __init__(self, url, download_file_extension=None, **kw):
            self.url = url
            self.suffix = download_file_extension or ""

        def remote(self):
            for r in remotes:
                if self.url.startswith(r.base + "/"):
                    return r
            raise Refused("no such host: " + self.url)

        def name(self):
            return os.path.basename(self.url)

        def extension(self, url=None):
            return self.name()[self.name().index(".") :]

        def local_path(self):
            return None

        def download(self, target):
            self.remote().fetch(self.url, target, target + self.suffix)

        def cache_data(self):
            n = self.name()
            n = n[:-4] if n.endswith(".npz") else n
            return {"etag": self.remote().etag(n)}

        def out_of_date(self, path, cache_data):
            return cache_data is not None and cache_data.get("etag") != self.cache_data()["etag"]

    multiurl.Downloader = Downloader
    m = mod("utils.download")
    if hasattr(m, "Downloader"):
        m.Downloader = Downloader


class Model:
    """What is expected to be cached."""

    disk = None  # version of the index on the disk
    proc = None  # version of the index in memory
    checked = False

    def __init__(self):
        self.matrix = {}


def history(cx):
    import multiurl
    import numpy as np

    keep = multiurl.Downloader
    cx.on_exit(lambda: setattr(multiurl, "Downloader", keep))
    conf = {"check_out_of_date_urls": cx.p("check", True), "download_out_of_date_urls": cx.p("update", False)}
    w = World(cx, **conf)
    w.start()
    mod().config.set({"weights-memory-cache-policy": "off"})
    base = BASES[cx.p("base", "url")]
    R = Remote(cx, base, cx.p("grids", 2))
    other = Remote(cx, "https://other.test/inv", 1, "v")
    install([R, other])
    if cx.p("fails"):
        R.kind = cx.choice("kind", cx.p("fails"))
        R.fail_at = cx.choice("fail", list(range(cx.p("nfail", 6))))
    m = Model()
    inv = None if cx.p("base") == "system" else base
    hist = []

    def ask(g):
        kw = {} if inv is None else {"inventory": inv}
        r, _ = mod("array").regrid(np.array([1.0]), {"grid": "O%d" % (g + 1)}, dict(OUT), interpolation="linear", backend="precomputed", **kw)
        return r.ravel()[0]

    for step in range(cx.p("L")):
        ops = ["ask%d" % g for g in range(cx.p("grids", 2))]
        if step:
            ops += [o for o in cx.p("ops", ["publish", "matrix", "restart"]) if hist[-1] != "restart" or o != "restart"]
        op = cx.choice("op%d" % step, ops)
        hist.append(op)
        if op == "publish":
            R.publish(R.version + 1)
            continue
        if op == "matrix":
            R.store(0, R.rev[0] + 1)
            continue
        if op == "restart":
            w.crash()
            mod().config.set({"weights-memory-cache-policy": "off"})
            install([R, other])
            m.proc, m.checked = None, False
            continue
        g = int(op[3:])
        del R.log[:]
        R.failed = None
        r, err = cx.try_(ask, g)
        log = list(R.log)
        hist[-1] = [op, "failed" if R.failed else "ok"]
        gz = log.count("gz") + log.count("index")
        mat = log.count("n%d" % g)
        info = [hist, log, repr(err), m.__dict__]
        cx.check(len([x for x in log if x.startswith("n")]) == mat, "matrix-once", info)
        if R.failed and not R.failed.startswith("n"):
            # an error, or an answer that did not need what has failed
            if err is None:
                ok = m.proc not in (None, "?") and g in R.grids(m.proc) and g in m.matrix
                cx.check(ok and r == R.w[g, m.matrix[g]], "fails", info)
            else:
                cx.cover("fails")
            # nothing is known of what is left
            m.disk = m.proc = "?"
            m.checked = False
            continue
        # --- the index
        unsure = m.disk == "?" or m.proc == "?"
        if not unsure:
            loads = m.proc is None
            want = 0
            if m.disk is None:
                want, m.disk = 1, R.version
            if loads:
                m.proc = m.disk
            if g not in R.grids(m.proc) and m.checked == "?" and (gz or "sha" in log):
                m.checked = False
            if g not in R.grids(m.proc) and not m.checked:
                # the remote is asked
                if m.disk != R.version:
                    want += 1
                m.disk = m.proc = R.version
                m.checked = True
                cx.check("sha" in log or gz, "index-current", info)
            if g in R.grids(m.proc):
                cx.check(gz == want, "index-once" if not want else "index-current", info)
            else:
                # not found, or the remote was asked again
                cx.check(gz <= max(want, 1), "index-once", info)
                if gz > want:
                    cx.check(m.disk != R.version, "index-once", info)
                    m.disk = m.proc = R.version
                if "sha" not in log and not gz:
                    cx.cover("index-once")
        else:
            # after a failed download: whatever is left, what is published can be asked for
            cx.check(gz <= 1, "index-once", info)
            if not R.failed and m.checked != "?":
                cx.check((err is None) == (g in R.grids(R.version)) or (err is None and not gz), "usable", info)
            if gz or "sha" in log:
                m.disk = m.proc = R.version
                m.checked = "sha" in log or "?"
            elif m.proc is None:
                m.proc = "?"
        # --- the answer
        if m.proc == "?":
            if err is not None:
                cx.cover("missing")
                continue
        elif g not in R.grids(m.proc):
            cx.check(isinstance(err, ValueError) and not mat, "missing", info)
            continue
        if R.failed:
            cx.check(err is not None, "fails", info)
            m.matrix.pop(g, None)
            continue
        cx.check(err is None, "answer", info)
        rev = m.matrix.get(g)
        if rev is None:
            cx.check(mat == 1, "matrix-current", info)
            rev = R.rev[g]
        elif conf["check_out_of_date_urls"] and conf["download_out_of_date_urls"] and rev != R.rev[g]:
            cx.check(mat == 1, "matrix-current", info)
            rev = R.rev[g]
        else:
            cx.check(mat == 0, "matrix-once", info)
        m.matrix[g] = rev
        cx.check(r == R.w[g, rev], "answer", info + [rev])
    cx.check(not other.log, "answer", other.log)
    cx.sample(hist=hist)


HARNESS = {"history": history}


def jobs(tier):
    q = tier == "quick"
    out = []

    def job(**kw):
        out.append({"h": "history", "params": kw})

    for check in (True, False):
        for update in (True, False):
            job(L=4 if q else 5, ops=["matrix", "restart"], check=check, update=update, grids=1)
    for first in ("ask0", "ask1"):
        job(L=5 if q else 6, ops=["publish", "restart"], fix={"op0": first})
    job(L=4 if q else 5, ops=["publish", "restart"], base="system")
    job(L=3 if q else 4, ops=["publish", "restart"], base="slash")
    for kind in ("refused", "cut", "damaged"):
        for second in ("ask0", "ask1", "publish", "restart"):
            job(L=4 if q else 5, ops=["publish", "restart"], fails=[kind], nfail=5, fix={"op1": second})
    job(L=3 if q else 4, ops=["matrix", "restart"], grids=1, fails=["refused", "cut"], update=True)
    return out
