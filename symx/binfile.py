"""Binary files, CSR arrays and npz files whose content is symbolic.

A symbolic file exists on disk with placeholder content of the same length; its
real content is registered here by path."""
import os

from . import env, hooks
from . import values as V
from .core import Leak

FILES = {}


def reset():
    FILES.clear()


def store(path, data):
    os.makedirs(os.path.dirname(os.path.abspath(path)), exist_ok=True)
    p = os.path.realpath(path)
    if type(data) is V.SymBytes:
        with open(p, "wb") as f:
            f.write(b"\0" * len(data))
        FILES[p] = data
    else:
        FILES.pop(p, None)
        with open(p, "wb") as f:
            f.write(data)


def content(path):
    p = os.path.realpath(path)
    if p in FILES and os.path.exists(p):
        return FILES[p]
    with open(p, "rb") as f:
        return f.read()


class Reader:
    def __init__(self, path, data):
        self.data, self.pos, self.name = data, 0, path

    def read(self, n=-1):
        n = V.concretize(n) if hooks.is_sym(n) else n
        if n is None or n < 0:
            n = len(self.data)
        r = self.data[self.pos : self.pos + n]
        self.pos = min(len(self.data), self.pos + n)
        return r

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Writer:
    def __init__(self, path):
        self.f = open(path, "wb")
        self.path = os.path.realpath(path)
        FILES.pop(self.path, None)
        self.name = path
        self.chunks = []
        self.sym = False

    def write(self, b):
        if type(b) is V.SymBytes:
            self.sym = True
            self.f.write(b"\0" * len(b))
            self.chunks.extend(b.b)
        else:
            self.f.write(b)
            self.chunks.extend(b)
        if self.sym:
            FILES[self.path] = V.mkbytes(tuple(self.chunks))
        return len(b)

    def flush(self):
        self.f.flush()

    def fileno(self):
        return self.f.fileno()

    def close(self):
        self.f.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def b_open(path, mode="r", *a, **k):
    if "b" in mode and "+" not in mode and isinstance(path, (str, os.PathLike)):
        if "r" in mode:
            p = os.path.realpath(path)
            if p in FILES and os.path.exists(p):
                return Reader(path, FILES[p])
        elif "w" in mode or "x" in mode:
            if "x" in mode and os.path.exists(path):
                raise FileExistsError(path)
            return Writer(path)
    return open(path, mode, *a, **k)


def moved(fn):
    def f(src, dst, **k):
        fn(src, dst, **k)
        s, d = os.path.realpath(src), os.path.realpath(dst)
        for reg in (FILES, env.MATRICES):
            reg.pop(d, None)
            if s in reg:
                reg[d] = reg.pop(s)

    return f


class SymCSR:
    """A csr_array with symbolic entries; the constructor checks what scipy checks."""

    format = "csr"
    ndim = 2

    def __init__(self, data, indices, indptr, shape):
        self.shape = tuple(V.concretize(x) if False else x for x in shape)
        n = len(indptr)
        if not (n == shape[0] + 1):
            raise ValueError("index pointer size %s should be %s" % (n, "M+1"))
        if n == 0 or not (indptr[0] == 0):
            raise ValueError("index pointer should start with 0")
        if len(indices) != len(data):
            raise ValueError("indices and data should have the same size")
        if not (indptr[n - 1] <= len(indices)):
            raise ValueError("Last value of index pointer should be less than the size of index and data arrays")
        self.data, self.indices, self.indptr = data, indices, indptr
        self.dtype = data.dtype

    @property
    def nnz(self):
        return self.indptr[-1]

    def dense(self):
        rows = []
        nr, nc = (int(x) for x in self.shape)
        for r in range(nr):
            row = []
            for c in range(nc):
                acc = 0.0
                for k in range(len(self.data)):
                    hit = V.sym_and(self.indptr[r] <= k, k < self.indptr[r + 1], self.indices[k] == c)
                    acc = acc + V.sym_ite(hit, self.data[k], 0.0)
                row.append(acc)
            rows.append(row)
        return rows


OPAQUE = {}


def _float_of(bs, order):
    """The value of an IEEE number given by its bytes."""
    if order == "little":
        bs = bs[::-1]
    for v, n, bb in hooks.FLOATBITS:
        if n == len(bs) and all(_same(x, y) for x, y in zip(bs, bb)):
            return v
    if not any(hooks.is_sym(b) or V.z3.is_expr(b) for b in bs):
        import struct

        return struct.unpack(">d" if len(bs) == 8 else ">f", bytes(bs))[0]
    # other bytes: some number, depending on nothing known
    v = V.eng().uname("ieee")
    r = V.z3.Real(v)
    V.eng().axiom(V.z3.And(r >= -1000000, r <= 1000000))
    for x, n, bb in hooks.FLOATBITS:
        if n == len(bs):
            V.eng().axiom(V.z3.Implies(V.z3.And(*[V.bytexpr(p) == V.bytexpr(q) for p, q in zip(bs, bb)]), r == V.rexpr(x)))
    return V.SymFloat(r, 1000000)


def _same(x, y):
    if V.z3.is_expr(x) and V.z3.is_expr(y):
        return x.eq(y)
    return not V.z3.is_expr(x) and not V.z3.is_expr(y) and x == y


def install():
    import numpy as np
    import scipy.sparse as sp

    hooks.override(open, b_open)
    hooks.override(os.rename, moved(os.rename))
    hooks.override(os.replace, moved(os.replace))

    def frombuffer(buf, dtype=float, count=-1, offset=0, **k):
        if type(buf) is not V.SymBytes:
            return np.frombuffer(buf, dtype, count, offset, **k)
        if count != -1 or offset:
            raise Leak("np.frombuffer of a part of a symbolic buffer")
        dt = np.dtype(dtype)
        n = dt.itemsize
        if len(buf) % n:
            raise ValueError("buffer size must be a multiple of element size")
        order = "big" if dt.str[0] == ">" else "little"
        out = np.empty(len(buf) // n, dtype=object)
        for i in range(len(out)):
            bs = buf.b[i * n : (i + 1) * n]
            if dt.kind == "u":
                out[i] = V.bytes_to_uint(bs, order)
            elif dt.kind == "i":
                u = V.bytes_to_uint(bs, order)
                h = 2 ** (8 * n - 1)
                out[i] = V.sym_ite(u >= h, u - 2 * h, u)
            elif dt.kind == "f":
                out[i] = _float_of(bs, order)
            else:
                raise Leak("np.frombuffer of %s" % dt)
        return out

    hooks.override(np.frombuffer, frombuffer)

    def csr(cls):
        def f(arg, shape=None, dtype=None, copy=False, **k):
            if type(arg) is tuple and len(arg) == 3 and (
                hooks.has_sym(shape) or any(isinstance(x, np.ndarray) and x.dtype == object or hooks.has_sym(x) for x in arg)
            ):
                if dtype is not None or shape is None:
                    raise Leak("csr with dtype or without shape")
                return SymCSR(*[np.asarray(x) for x in arg], shape)
            if isinstance(arg, SymCSR):
                return arg
            return cls(arg, shape=shape, dtype=dtype, copy=copy, **k)

        return f

    hooks.override(sp.csr_array, csr(sp.csr_array))
    hooks.override(sp.csr_matrix, csr(sp.csr_matrix))

    def save_npz(path, m, compressed=True):
        if isinstance(m, (SymCSR, env.SymMatrix)):
            p = os.fspath(path)
            if not p.endswith(".npz"):
                p += ".npz"
            rows = m.dense() if isinstance(m, SymCSR) else m.rows
            if not os.path.isdir(os.path.dirname(os.path.abspath(p))):
                raise FileNotFoundError(p)
            env.store_matrix(os.path.abspath(p), rows, tuple(int(x) for x in m.shape), int(V.concretize(m.nnz)))
            return
        sp.save_npz(path, m, compressed)
        env.MATRICES.pop(os.path.realpath(path), None)

    hooks.override(sp.save_npz, save_npz)
