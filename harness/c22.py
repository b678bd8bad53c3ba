"""C22: weights exported from MIR are decoded to the sparse matrix that was written."""
import os

from symx.ctx import mod

TECHNIQUE = "symbolic execution of the instrumented source + z3 (symbolic bytes of the stream; all truncation lengths, tags and counts)"
LEVEL_NOTE = (
    "Complete for all header values, row pointers, column indices and weights within the stated sizes, both byte orders, both weight types, "
    "every truncation length and every corrupt tag; scipy's csr_array and npz files are modelled by their documented checks (paths replayed on the real ones)."
)
BOUNDS = (
    "0-3 rows (thorough 4), 0-3 stored weights (thorough 4), up to 2^31-1 columns; one corrupt or repeated tag; every truncation of a 2x3 matrix stream; "
    "blob lengths 0-4 items against 0-4 rows; every byte pattern of index and scalar sizes below 2^32"
)
OUTSIDE = "column indices outside the matrix; weights that are NaN or infinite; larger matrices"
ASSUMPTIONS = ["struct, numpy.frombuffer and scipy.sparse.csr_array are modelled", "IEEE encodings are modelled as injective byte strings"]
REQUIRED_UNION = ["shape", "indptr", "indices", "data", "tag", "truncated", "counts", "sizes", "file", "target"]

UL, INT, BLOB = 10, 5, 21


class Stream:
    """The writer's side of the format."""

    def __init__(self, cx):
        self.cx = cx
        self.parts = []
        self.tags = []
        self.n = 0

    def raw(self, b):
        self.parts.append(b)
        self.n += len(b)

    def tag(self, t):
        self.tags.append(len(self.parts))
        self.raw(bytes([t]))

    def num(self, t, v):
        self.tag(t)
        self.raw(self.cx.pack("!L", v))

    def blob(self, items):
        data = self.cx.join(items)
        self.tag(BLOB)
        self.raw(self.cx.pack("!Q", len(data)))
        if len(data):
            self.raw(data)

    def bytes(self):
        return self.cx.join(self.parts)


def write(cx, rows, cols, ptr, idx, val, little, fsize, nnz=None, isize=4, ssize=None, zsize=8):
    o = "<" if little else ">"
    s = Stream(cx)
    s.num(UL, rows)
    s.num(UL, cols)
    s.num(UL, len(val) if nnz is None else nnz)
    s.num(INT, 1 if little else 0)
    s.num(UL, isize)
    s.num(UL, fsize if ssize is None else ssize)
    s.num(UL, zsize)
    s.blob([cx.pack(o + "L", x) for x in ptr])
    s.blob([cx.pack(o + "L", x) for x in idx])
    s.blob([cx.pack(o + ("d" if fsize == 8 else "f"), x) for x in val])
    return s


def matrix(cx, R, n, cmax=2**31 - 1):
    cols = cx.int("cols", 1, cmax)
    ptr = [0]
    for i in range(R - 1):
        p = cx.int("ptr%d" % i, 0, n)
        cx.assume(p >= ptr[-1])
        ptr.append(p)
    if R:
        ptr.append(n)
    idx = []
    for i in range(n):
        c = cx.int("col%d" % i, 0, cmax)
        cx.assume(c < cols)
        idx.append(c)
    val = [cx.float("val%d" % i, -1000, 1000) for i in range(n)]
    return cols, ptr, idx, val


def rounded(cx, v, fsize):
    if cx.symbolic or fsize == 8:
        return v
    import numpy as np

    return float(np.float32(v))


def same(cx, m, rows, cols, ptr, idx, val, fsize):
    cx.check(len(m.shape) == 2, "shape")
    cx.check(cx.and_(m.shape[0] == rows, m.shape[1] == cols), "shape", [m.shape, rows, cols])
    for label, got, want in (("indptr", m.indptr, ptr), ("indices", m.indices, idx), ("data", m.data, [rounded(cx, v, fsize) for v in val])):
        cx.check(len(got) == len(want), label, [got, want])
        cx.check(cx.and_(*[g == w for g, w in zip(got, want)]), label, [got, want])


def decode(cx):
    R, n, fsize = cx.p("R"), cx.p("n"), cx.p("fsize")
    little = cx.choice("little", [True, False])
    cols, ptr, idx, val = matrix(cx, R, n)
    s = write(cx, R, cols, ptr, idx, val, little, fsize, zsize=cx.int("zsize", 1, 16))
    path = os.path.join(cx.dir(), "a.mat")
    if cx.p("end"):
        # an end-of-object marker before an item is skipped
        k = cx.choice("where", list(range(len(s.tags))))
        s.parts[s.tags[k]] = b"\x02" * cx.choice("times", [1, 2]) + s.parts[s.tags[k]]
    if cx.p("flag"):
        # any flag but zero means little endian
        flag = cx.int("flag", 0, 2**31 - 1)
        cx.assume(cx.iff(flag != 0, little))
        s.parts[s.tags[3] + 1] = cx.pack("!L", flag)
    data = s.bytes()
    if cx.p("tail"):
        data = cx.join([data, cx.bytes("tail", 3)])
    cx.binfile(path, data)
    m = mod("utils.mir").mir_cached_matrix_to_array(path)
    same(cx, m, R, cols, ptr, idx, val, fsize)
    cx.sample(R=R, n=n, fsize=fsize, little=little)


def small(cx):
    little = cx.choice("little", [True, False])
    cols, ptr, idx, val = matrix(cx, 2, 3)
    return write(cx, 2, cols, ptr, idx, val, little, 8)


def read(cx, data, label, info=None):
    path = os.path.join(cx.dir(), "a.mat")
    cx.binfile(path, data)
    r, e = cx.try_(mod("utils.mir").mir_cached_matrix_to_array, path)
    cx.check(e is not None, label, info)


def tag(cx):
    s = small(cx)
    k = cx.choice("where", list(range(len(s.tags))))
    b = cx.bytes("tag", 1)
    want = s.parts[s.tags[k]]
    v = cx.unpack("B", b)[0]
    cx.assume(cx.and_(v != want[0], v != 2))
    s.parts[s.tags[k]] = b
    read(cx, s.bytes(), "tag", [k, v])


def truncated(cx):
    s = small(cx)
    d = s.bytes()
    n = 16 * cx.choice("length16", list(range(len(d) // 16 + 1))) + cx.choice("length", list(range(16)))
    if n >= len(d):
        cx.stop()
    read(cx, d[:n], "truncated", [n, len(d)])


def counts(cx):
    """The shape, the row pointers and the blobs disagree."""
    little = cx.choice("little", [True, False])
    R = cx.int("rows", 0, 4)
    np_, ni, nv = cx.choice("nptr", [1, 2, 3, 4]), cx.choice("nidx", [1, 2, 3]), cx.choice("nval", [1, 2, 3])
    last = cx.int("last", 0, 5)
    ptr = [0] + [1] * (np_ - 2) + [last] if np_ > 1 else [last]
    s = write(cx, R, 7, ptr, [0] * ni, [1.5] * nv, little, 8, nnz=cx.choice("nnz", [nv, ni]))
    path = os.path.join(cx.dir(), "a.mat")
    cx.binfile(path, s.bytes())
    r, e = cx.try_(mod("utils.mir").mir_cached_matrix_to_array, path)
    bad = cx.or_(np_ != R + 1, ni != nv, last > ni, np_ == 1 and last != 0)
    if e is None:
        cx.check(cx.not_(bad), "counts", [R, np_, ni, nv, last])
    else:
        cx.check(bad, "counts", [R, np_, ni, nv, last, e])


def sizes(cx):
    """Item sizes the decoder does not know are refused."""
    little = cx.choice("little", [True, False])
    which = cx.choice("which", ["index", "scalar"])
    n = cx.int("size", 0, 2**32 - 1)
    kw = {}
    if which == "index":
        cx.assume(n != 4)
        kw["isize"] = n
    else:
        cx.assume(cx.and_(n != 4, n != 8))
        kw["ssize"] = n
    # as many bytes as the other sizes would need, so that nothing else is wrong
    s = write(cx, 1, 5, [0, 2], [1, 3], [0.5, 2.5], little, 8, **kw)
    read(cx, s.bytes(), "sizes", [which, n])


def tofile(cx):
    """The conversion to npz: what load_npz returns is the matrix of the stream."""
    import pathlib

    little = cx.choice("little", [True, False])
    cols, ptr, idx, val = matrix(cx, 2, 2, cmax=3)
    s = write(cx, 2, cols, ptr, idx, val, little, 8)
    d = cx.dir()
    path = os.path.join(d, "a.mat")
    cx.binfile(path, s.bytes())
    mir = mod("utils.mir")
    kind = cx.choice("target", ["str", "path", "bad", "none"])
    out = os.path.join(d, "out" + {"bad": ".mat", "none": ""}.get(kind, ".npz"))
    target = pathlib.Path(out) if kind == "path" or (kind == "bad" and cx.bool("aspath")) else out
    r, e = cx.try_(mir.mir_cached_matrix_to_file, path, target)
    if kind in ("bad", "none"):
        cx.check(isinstance(e, ValueError), "target", [kind, e])
        cx.check(sorted(os.listdir(d)) == ["a.mat"], "target", os.listdir(d))
        return
    cx.check(e is None, "file", [kind, e])
    cx.check(sorted(os.listdir(d)) == ["a.mat", "out.npz"], "file", os.listdir(d))
    m = load(cx, out)
    cx.check(cx.and_(m.shape[0] == 2, m.shape[1] == cols), "file", [m.shape])
    for c in range(int(m.shape[1])):
        import numpy as np

        v = np.zeros(int(m.shape[1]))
        v[c] = 1.0
        got = m @ v
        for r in range(2):
            want = 0.0
            for k in range(2):
                want = want + cx.ite(cx.and_(ptr[r] <= k, ptr[r + 1] > k, idx[k] == c), val[k], 0.0)
            cx.check(abs(got[r] - want) <= 1e-6, "file", [r, c, got[r], want])


def load(cx, path):
    if cx.symbolic:
        from symx import env

        return env.SymMatrix(*env.MATRICES[os.path.realpath(path)])
    from scipy.sparse import load_npz

    return load_npz(path)


HARNESS = {"decode": decode, "tag": tag, "truncated": truncated, "counts": counts, "sizes": sizes, "tofile": tofile}


def jobs(tier):
    out = []
    top = 3 if tier == "quick" else 4
    for fsize in (4, 8):
        for R in range(top + 1):
            for n in range(top + 1) if R else [0]:
                out.append({"h": "decode", "params": {"R": R, "n": n, "fsize": fsize}, "fp": "real"})
    out.append({"h": "decode", "params": {"R": 2, "n": 2, "fsize": 8, "end": True}, "fp": "real"})
    out.append({"h": "decode", "params": {"R": 2, "n": 2, "fsize": 8, "flag": True}, "fp": "real"})
    out.append({"h": "decode", "params": {"R": 2, "n": 2, "fsize": 4, "tail": True}, "fp": "real"})
    for h in ("tag", "truncated", "counts", "sizes", "tofile"):
        out.append({"h": h, "params": {}, "fp": "real"})
    return out
