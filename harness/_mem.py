"""A world of small inventories for the in-memory cache harnesses.

Matrix i of an inventory is 1x1 with weight `stamp`, stored with a symbolic number of entries, so that its size in memory is
12 * nnz + 8 bytes. Rewriting the file with a new stamp before each request makes a load visible in the result.
"""
import os

from symx.ctx import mod

from ._inv import write_inventory

OUT = {"grid": [10, 10]}
SIZE, POLICY, STRICT = "maximum-weights-memory-cache-size", "weights-memory-cache-policy", "weights-memory-cache-strict-mode"


def grid(i):
    return {"grid": "O%d" % (i + 1)}


class World:
    def __init__(self, cx, n, est=None, tag="m", maxnnz=60, method="linear"):
        self.cx, self.n, self.method = cx, n, method
        self.nnz = [cx.int("%s%d.nnz" % (tag, i), 1, maxnnz) for i in range(n)]
        self.size = [12 * k + 8 for k in self.nnz]
        self.stamp = [0] * n
        self.base = 0
        entries = []
        for i in range(n):
            e = {"name": "n%d" % i, "input": {"grid": "O%d" % (i + 1), "shape": [1]}, "output": {"grid": [10, 10], "shape": [1, 1]}}
            e.update(method=method, weights=[[0.0]], wshape=(1, 1), nnz=self.nnz[i])
            m = self.size[i] if est is None else est[i]
            if m is not None:
                e["memory"] = m
            entries.append(e)
        self.dir = write_inventory(cx, entries)

    def write(self, i, stamp):
        self.stamp[i] = stamp
        self.cx.matrix(os.path.join(self.dir, "mir_16_%s" % self.method, "n%d.npz" % i), [[float(stamp)]], (1, 1), nnz=self.nnz[i])

    def request(self, i, stamp, **kw):
        """-> stamp of the weights used; the file on disk has the given stamp when the call is made."""
        import numpy as np

        self.write(i, stamp)
        kw.setdefault("interpolation", self.method)
        r, _ = mod("array").regrid(np.array([1.0]), kw.pop("grid", grid(i)), OUT, backend="precomputed", inventory=self.dir, **kw)
        v = r.ravel()[0]
        return int(v)


def info():
    return mod().memory_cache_info()


def clear():
    mod().clear_memory_cache()


def configure(**kw):
    mod().config.autosave = False  # what is saved is C21
    mod().config.set({{"size": SIZE, "policy": POLICY, "strict": STRICT}[k]: v for k, v in kw.items()})


def growth(cx, tag, used, n, extra=()):
    """Choice among the matrices, up to renaming of the ones not requested yet."""
    k = min(n, (max(used) + 2) if used else 1)
    return cx.choice(tag, list(range(k)) + list(extra))
