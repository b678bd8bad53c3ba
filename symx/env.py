"""Environment models: what the code under test reaches outside itself."""
import os

from . import hooks
from .values import Sym

MATRICES = {}
MARK = b"symbolic matrix "


class SymMatrix:
    """A sparse matrix with (possibly symbolic) float64 entries."""

    format = "csr"

    def __init__(self, rows, shape, nnz=None):
        import numpy as np

        self.rows = rows
        self.shape = shape
        if nnz is None:
            nnz = sum(len(r) for r in rows)
        self.nnz = nnz
        self.dtype = np.dtype("float64")
        self.data = Buf(8 * nnz)
        self.indices = Buf(4 * nnz)
        self.indptr = Buf(4 * (shape[0] + 1))

    def __matmul__(self, v):
        import numpy as np

        if not isinstance(v, np.ndarray):
            raise TypeError("unsupported operand for @")
        if v.ndim not in (1, 2) or v.shape[0] != self.shape[1]:
            raise ValueError("dimension mismatch")
        cols = v.reshape(v.shape[0], -1)
        out = np.empty((self.shape[0], cols.shape[1]), dtype=object)
        for i, r in enumerate(self.rows):
            for c in range(cols.shape[1]):
                acc = 0.0
                for j, w in enumerate(r):
                    acc = acc + w * cols[j, c]
                out[i, c] = acc
        return out if v.ndim == 2 else out[:, 0]

    dot = __matmul__

    def copy(self):
        return self

    tocsr = copy

    @property
    def T(self):
        return SymMatrix([[self.rows[i][j] for i in range(self.shape[0])] for j in range(self.shape[1])], self.shape[::-1])

    def transpose(self):
        return self.T


class Buf:
    def __init__(self, n):
        self.nbytes = n


def store_matrix(path, rows, shape, nnz=None):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        n = len(MATRICES)
        f.write(MARK + b"%d" % n)
    MATRICES[n] = MATRICES[os.path.realpath(path)] = (rows, shape, nnz)


def copied_matrix(path):
    """The matrix of a file that is a byte by byte copy of one."""
    try:
        with open(path, "rb") as f:
            b = f.read(100)
    except OSError:
        return None
    return MATRICES.get(int(b[len(MARK) :])) if b.startswith(MARK) else None


def reset():
    MATRICES.clear()
    DISK[0] = None


class Statvfs:
    """The file system seen by the code under test: fixed unless a harness says otherwise."""

    f_frsize = 1

    def __init__(self, total=10**6, avail=900000):
        self.f_blocks = total
        self.f_bfree = self.f_bavail = avail


DISK = [None]


def statvfs(path):
    return DISK[0]() if DISK[0] else Statvfs()


def install():
    import scipy.sparse

    os.statvfs = statvfs

    def load_npz(p):
        r = MATRICES.get(os.path.realpath(p)) or copied_matrix(p)
        if r is None or not os.path.exists(p):
            return scipy.sparse.load_npz(p)
        return SymMatrix(*r)

    hooks.override(scipy.sparse.load_npz, load_npz)
