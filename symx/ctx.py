"""The interface harnesses are written against.

The same harness runs in two modes: symbolic (inputs are z3-backed proxies, the
code under test is instrumented) and concrete (inputs come from a recorded
solver model, the code under test is the plain, unmodified package).
"""
import importlib
import os
import sys


class Violated(Exception):
    def __init__(self, label, info=None):
        super().__init__(label)
        self.label = label
        self.info = info


class Stop(BaseException):
    """End of a concrete replay (assumption not met or path ended)."""


class Ctx:
    symbolic = False

    def __init__(self, params):
        self.params = params or {}

    def p(self, name, default=None):
        return self.params.get(name, default)


class SymCtx(Ctx):
    symbolic = True

    def __init__(self, params, engine):
        super().__init__(params)
        self.E = engine

    def on_exit(self, fn):
        self.E.cleanups.append(fn)

    # ------------------------------------------------------------ variables
    def _reg(self, name, kind, payload):
        if name in self.E.inputs:
            raise RuntimeError("duplicate input name %s" % name)
        self.E.inputs[name] = (kind, payload)

    def int(self, name, lo=None, hi=None):
        from .values import SymInt, z3

        v = z3.Int(name)
        self._reg(name, "int", v)
        cs = []
        if lo is not None:
            cs.append(v >= lo)
        if hi is not None:
            cs.append(v <= hi)
        if cs:
            self.E.axiom(z3.And(*cs))
        return SymInt(v)

    def float(self, name, lo, hi):
        from .values import SymFloat, rv, z3

        v = z3.Real(name)
        self._reg(name, "float", v)
        self.E.axiom(z3.And(v >= rv(lo), v <= rv(hi)))
        return SymFloat(v, max(abs(lo), abs(hi)))

    def bool(self, name):
        from .values import SymBool, z3

        v = z3.Bool(name)
        self._reg(name, "bool", v)
        return SymBool(v)

    def choice(self, name, options):
        """One of finitely many concrete options (the solver picks; forks)."""
        from .values import SymInt, concretize, z3

        fix = (self.p("fix") or {}).get(name, self)
        if fix is not self:  # the job explores this one only
            options = list(options)
            if fix not in options:
                self.stop()
        v = z3.Int(name)
        self._reg(name, "int", v)
        if fix is not self:
            self.E.axiom(v == options.index(fix))
            return fix
        self.E.axiom(z3.And(v >= 0, v <= len(options) - 1))
        return options[concretize(SymInt(v))]

    def str(self, name, minlen, maxlen, lo=32, hi=126):
        from .values import SymInt, SymStr, concretize, z3

        n = concretize(self.int(name + ".len", minlen, maxlen)) if maxlen > minlen else minlen
        if n == 0:
            self._reg(name, "str", ())
            return ""
        cs = tuple(z3.Int("%s[%d]" % (name, i)) for i in range(n))
        self.E.axiom(z3.And(*[z3.And(c >= lo, c <= hi) for c in cs]))
        self._reg(name, "str", cs)
        return SymStr(cs)

    def bytes(self, name, n):
        from .values import SymBytes, z3

        cs = tuple(z3.Int("%s[%d]" % (name, i)) for i in range(n))
        if cs:
            self.E.axiom(z3.And(*[z3.And(c >= 0, c <= 255) for c in cs]))
        self._reg(name, "bytes", cs)
        return SymBytes(cs)

    def note(self, name, value):
        """A concrete fact of the path, recorded for the replay."""
        self._reg(name, "const", value)
        return value

    # -------------------------------------------------------------- control
    def assume(self, c):
        from .values import SymBool, bexpr

        self.E.assume(bexpr(c) if not isinstance(c, bool) or type(c) is SymBool else c)

    def check(self, c, label, info=None):
        self.E.check(c if type(c) is bool else _b(c), label, info)

    def fail(self, label, info=None):
        self.E.check(False, label, info)

    def cover(self, label):
        self.E.cover(label)

    def stop(self):
        from .core import PathStop

        raise PathStop()

    def sample(self, **kw):
        self.E.sample(**kw)

    def and_(self, *xs):
        from .values import sym_and

        return sym_and(*xs)

    def or_(self, *xs):
        from .values import sym_or

        return sym_or(*xs)

    def not_(self, x):
        from .values import sym_not

        return sym_not(x)

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def iff(self, a, b):
        return self.or_(self.and_(a, b), self.and_(self.not_(a), self.not_(b)))

    def ite(self, c, a, b):
        from .values import sym_ite

        return sym_ite(c, a, b)

    def array(self, name, shape, lo=-1000, hi=1000):
        """A float array of symbolic values."""
        import numpy as np

        a = np.empty(shape, dtype=object)
        for n, i in enumerate(np.ndindex(*a.shape)):
            a[i] = self.float("%s.%d" % (name, n), lo, hi)
        return a

    def dir(self):
        """A scratch directory, removed at the end of the run."""
        return _scratch(self)

    def dump_json(self, path, x):
        """Write a JSON document that may have symbolic leaves."""
        import json

        from . import hooks

        def t(v):
            if isinstance(v, hooks.Sym):
                return hooks.token(v)
            if type(v) in (list, tuple):
                return [t(y) for y in v]
            if isinstance(v, dict):
                return {k: t(y) for k, y in dict.items(v)}
            return v

        with open(path, "w") as f:
            json.dump(t(x), f)

    def setenv(self, name, value):
        from . import hooks

        os.environ[name] = hooks.token(value) if isinstance(value, hooks.Sym) else value
        self.on_exit(lambda: os.environ.pop(name, None))

    def eq_array(self, a, b, tol=1e-6):
        """Shapes agree and all elements are equal."""
        import numpy as np

        if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray) or a.shape != b.shape:
            return False
        return self.and_(*[x == y for x, y in zip(a.ravel(), b.ravel())])

    def matrix(self, path, rows, shape, nnz=None):
        """Store a weights matrix (list of rows of numbers) as npz at path.

        nnz: number of stored entries (the rest are stored zeros)."""
        from . import env

        env.store_matrix(path, rows, shape, nnz)

    def pack(self, fmt, *vals):
        from . import hooks

        return hooks.struct_pack(fmt, *vals)

    def join(self, parts):
        """One bytes value of several."""
        out = b""
        for x in parts:
            out = out + x if type(out) is not bytes or type(x) is bytes else type(x)(tuple(out) + x.b)
        return out

    def binfile(self, path, data):
        """Store (symbolic) bytes as a file."""
        from . import binfile

        binfile.store(path, data)

    def content(self, path):
        """The bytes of a file."""
        from . import binfile

        return binfile.content(path)

    def unpack_float(self, bs, order=">"):
        from . import binfile
        from . import values as V

        return binfile._float_of(tuple(bs.b) if type(bs) is V.SymBytes else tuple(bs), "big" if order == ">" else "little")

    def yaml_text(self):
        """Allow yaml text of symbolic values (only for the harness to parse)."""
        from . import hooks

        hooks.YAML_TEXT.append(1)
        self.on_exit(hooks.YAML_TEXT.clear)

    def yaml(self, text):
        """The document a yaml text holds."""
        import yaml

        from . import hooks

        return hooks.untoken(yaml.safe_load(text))

    def unpack(self, fmt, bs):
        from . import hooks

        return hooks.struct_unpack(fmt, bs)

    def memo(self, key, fn):
        """fn() evaluated once per job: terms over the inputs only (no forks, no axioms)."""
        k = ("memo", key)
        d = self.E.memo
        if k not in d:
            n = len(self.E.trail), self.E.pos
            with self.exact():
                d[k] = fn()
            if n != (len(self.E.trail), self.E.pos):
                raise RuntimeError("memo() must not fork")
        return d[k]

    def exact(self):
        """Context: oracle arithmetic in exact reals (no rounding terms)."""
        return _Exact(self.E)

    def try_(self, fn, *a, **k):
        """(value, None) or (None, exception) of a call into the code under test."""
        from . import hooks

        try:
            return fn(*a, **k), None
        except Exception as e:
            hooks.check_leak(e)
            return None, e


def _b(c):
    from .values import SymBool

    if type(c) is SymBool:
        return c.e
    if type(c).__module__ == "numpy":
        return bool(c)
    if c is None or isinstance(c, (int, str, list, tuple, dict)):
        return bool(c)
    return c


def _scratch(cx):
    import shutil
    import tempfile

    d = tempfile.mkdtemp(prefix="symx-run-")
    cx.on_exit(lambda: shutil.rmtree(d, ignore_errors=True))
    return d


class _Exact:
    def __init__(self, E):
        self.E = E

    def __enter__(self):
        self.old = self.E.fp
        self.E.fp = "real"

    def __exit__(self, *a):
        self.E.fp = self.old


class ConcCtx(Ctx):
    symbolic = False

    def __init__(self, params, inputs):
        super().__init__(params)
        self.inputs = inputs
        self.cleanups = []

    def on_exit(self, fn):
        self.cleanups.append(fn)

    def int(self, name, lo=None, hi=None):
        return self._get(name)

    def _get(self, name):
        if name not in self.inputs:
            raise Stop("input %s not in the recorded model" % name)
        return self.inputs[name]

    def float(self, name, lo, hi):
        return float(self._get(name))

    def bool(self, name):
        return bool(self._get(name))

    def choice(self, name, options):
        return options[self._get(name)]

    def str(self, name, minlen, maxlen, lo=32, hi=126):
        return self._get(name)

    def bytes(self, name, n):
        return bytes(self._get(name))

    def note(self, name, value):
        return value

    def assume(self, c):
        if not c:
            raise Stop("assumption not met")

    def check(self, c, label, info=None):
        if not c:
            raise Violated(label, info)

    def fail(self, label, info=None):
        raise Violated(label, info)

    def cover(self, label):
        pass

    def stop(self):
        raise Stop()

    def sample(self, **kw):
        pass

    def and_(self, *xs):
        return all(bool(x) for x in xs)

    def or_(self, *xs):
        return any(bool(x) for x in xs)

    def not_(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def memo(self, key, fn):
        return fn()

    def pack(self, fmt, *vals):
        import struct

        return struct.pack(fmt, *vals)

    def join(self, parts):
        return b"".join(parts)

    def binfile(self, path, data):
        os.makedirs(os.path.dirname(os.path.abspath(path)), exist_ok=True)
        with open(path, "wb") as f:
            f.write(data)

    def content(self, path):
        with open(path, "rb") as f:
            return f.read()

    def unpack_float(self, bs, order=">"):
        import struct

        return struct.unpack(order + ("d" if len(bs) == 8 else "f"), bs)[0]

    def yaml_text(self):
        pass

    def yaml(self, text):
        import yaml

        return yaml.safe_load(text)

    def unpack(self, fmt, bs):
        import struct

        return struct.unpack(fmt, bs)

    def array(self, name, shape, lo=-1000, hi=1000):
        import numpy as np

        a = np.empty(shape, dtype=float)
        for n, i in enumerate(np.ndindex(*a.shape)):
            a[i] = self.float("%s.%d" % (name, n), lo, hi)
        return a

    def dir(self):
        return _scratch(self)

    def dump_json(self, path, x):
        import json

        with open(path, "w") as f:
            json.dump(x, f)

    def setenv(self, name, value):
        os.environ[name] = value
        self.on_exit(lambda: os.environ.pop(name, None))

    def eq_array(self, a, b, tol=1e-6):
        import numpy as np

        if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray) or a.shape != b.shape:
            return False
        return bool(np.allclose(a, b, rtol=tol, atol=tol))

    def matrix(self, path, rows, shape, nnz=None):
        import numpy as np
        from scipy.sparse import csr_matrix, save_npz

        os.makedirs(os.path.dirname(path), exist_ok=True)
        if nnz is not None:
            # one row only: its first entry, then stored zeros
            data = np.zeros(nnz)
            data[: len(rows[0])] = rows[0]
            idx = np.zeros(nnz, dtype="int32")
            idx[: len(rows[0])] = range(len(rows[0]))
            save_npz(path, csr_matrix((data, idx, np.array([0, nnz], dtype="int32")), shape=shape))
            return
        save_npz(path, csr_matrix(np.array(rows, dtype=float).reshape(shape)))

    def exact(self):
        import contextlib

        return contextlib.nullcontext()

    def try_(self, fn, *a, **k):
        try:
            return fn(*a, **k), None
        except Exception as e:
            return None, e


# ------------------------------------------------------------- package access
PKG = "earthkit.regrid"


def purge_modules():
    for m in [m for m in sys.modules if m == PKG or m.startswith(PKG + ".")]:
        del sys.modules[m]
    ek = sys.modules.get("earthkit")
    if ek is not None and hasattr(ek, "regrid"):
        try:
            delattr(ek, "regrid")
        except AttributeError:
            pass


def mod(name=""):
    """A module of the package under test."""
    return importlib.import_module(PKG + ("." + name if name else ""))


def repo_root():
    return os.environ.get("SYMX_REPO", "/repo")
