"""Run-time half of the instrumentation: what the rewritten syntax calls.

`sx_call` is on every call.  Calls of instrumented Python functions go straight
through.  C functions that receive a symbolic value are either modelled here
(OVERRIDES / METHODS), known to be transparent containers (TRANSPARENT), or
stopped with Leak: a proxy never silently decays into a concrete value.
"""
import builtins
import collections
import copy
import functools
import hashlib
import itertools
import json
import logging
import math
import operator
import re
import struct
import os
import sys
import types

from . import values as V
from .core import Leak, SymxControl, eng
from .values import (
    HASHOK,
    LazyStr,
    NumText,
    Sym,
    SymBool,
    SymBytes,
    SymFloat,
    SymInt,
    SymStr,
    is_strlike,
    is_sym,
    mklazy,
    sym_and,
    sym_not,
)

OVERRIDES = {}  # id(function) -> (function, replacement)
METHODS = {}  # (type, name) -> replacement(self, *a, **k), only when a proxy is involved
METHODS_ALWAYS = {}  # (type, name) -> replacement, always
FUNCS = {}  # id(__func__) of bound python methods -> replacement


def override(fn, repl):
    OVERRIDES[id(fn)] = (fn, repl)


def override_method(typ, name, repl, always=False):
    (METHODS_ALWAYS if always else METHODS)[(typ, name)] = repl


def override_func(fn, repl):
    FUNCS[id(fn)] = (fn, repl)


def has_sym(x, depth=2):
    t = type(x)
    if issubclass(t, Sym):
        return True
    if depth and (t is tuple or t is list or t is set):
        return any(has_sym(y, depth - 1) for y in x)
    if depth and issubclass(t, dict):
        return any(has_sym(y, depth - 1) for y in dict.values(x)) or any(is_sym(k) for k in dict.keys(x))
    return False


def any_sym(args, kwargs):
    for a in args:
        if has_sym(a):
            return True
    for a in kwargs.values():
        if has_sym(a):
            return True
    return False


CFUNC = (
    types.BuiltinFunctionType,
    types.MethodWrapperType,
    types.WrapperDescriptorType,
    types.MethodDescriptorType,
    types.ClassMethodDescriptorType,
    type(__import__("re").compile("").match),
)

_LIST_OK = {"append", "extend", "insert", "pop", "copy", "clear", "reverse", "__init__", "__setitem__", "__getitem__", "__len__", "__iter__"}
_DICT_VALUE_OK = {"items", "values", "keys", "copy", "clear", "popitem", "move_to_end", "__iter__", "__len__", "__init__", "__repr__"}
_DICT_KEYED = {"get", "pop", "setdefault", "__getitem__", "__setitem__", "__contains__", "__delitem__", "move_to_end"}
_OBJ_OK = {"__init__", "__new__", "__setattr__", "__getattribute__", "__init_subclass__", "__eq__", "__ne__"}
TRANSPARENT = set()
for _f in (
    isinstance,
    issubclass,
    getattr,
    setattr,
    hasattr,
    iter,
    next,
    id,
    callable,
    tuple,
    list,
    enumerate,
    zip,
    reversed,
    map,
    filter,
    type,
    object,
    operator.add,
    operator.sub,
    operator.mul,
    operator.eq,
    operator.ne,
    operator.lt,
    operator.le,
    operator.gt,
    operator.ge,
    operator.neg,
    all,
    any,
    property,
    staticmethod,
    classmethod,
    functools.partial,
    functools.reduce,
    itertools.chain,
    itertools.islice,
    itertools.zip_longest,
    itertools.accumulate,
    itertools.takewhile,
    itertools.dropwhile,
    itertools.repeat,
    itertools.count,
    itertools.product,
    itertools.starmap,
    operator.itemgetter,
    operator.attrgetter,
    types.SimpleNamespace,
    copy.copy,
    copy.deepcopy,
    super,
    slice,
    delattr,
    operator.itemgetter,
    operator.truediv,
    operator.mod,
    operator.floordiv,
    operator.and_,
    operator.or_,
    operator.not_,
    operator.is_,
    operator.is_not,
):
    TRANSPARENT.add(id(_f))


def sx_call(f, /, *args, **kwargs):
    ov = OVERRIDES.get(id(f))
    if ov is not None:
        return ov[1](*args, **kwargs)
    t = type(f)
    if t is types.MethodType:
        fn = f.__func__
        ov = FUNCS.get(id(fn))
        if ov is not None:
            return ov[1](f.__self__, *args, **kwargs)
        return f(*args, **kwargs)
    if t is types.FunctionType:
        return f(*args, **kwargs)
    if t in CFUNC or (t is functools._lru_cache_wrapper):
        self = getattr(f, "__self__", None)
        name = getattr(f, "__name__", "")
        if t is types.MethodDescriptorType or t is types.WrapperDescriptorType:
            # unbound: dict.get(d, k)
            if args and (is_sym(args[0]) or any_sym(args, kwargs)):
                self = args[0]
                if issubclass(type(self), dict) and name in _DICT_KEYED:
                    return dict_method(self, name, args[1:], kwargs)
            return f(*args, **kwargs)
        if self is not None and not isinstance(self, types.ModuleType):
            st = type(self)
            if self is dict and name == "fromkeys":
                return sx_dict([(k, args[1] if len(args) > 1 else None) for k in args[0]])
            if isinstance(self, type):
                r = METHODS_ALWAYS.get((self, name))
                if r is not None:
                    return r(*args, **kwargs)
            for k in st.__mro__:
                r = METHODS_ALWAYS.get((k, name))
                if r is not None:
                    return r(self, *args, **kwargs)
            if issubclass(st, dict) and (name in _DICT_KEYED or name == "update"):
                return dict_method(self, name, args, kwargs)
            if issubclass(st, (set, frozenset)) and (any_sym(args, kwargs) or _symset(self)):
                return set_method(self, name, args, kwargs)
            if st is str and name == "join" and args and type(args[0]) not in (list, tuple, str):
                # an iterator may produce symbolic text
                args = (list(args[0]),)
            if any_sym(args, kwargs) or (st in (list, tuple) and name in ("index", "count", "remove", "sort")):
                for k in st.__mro__:
                    r = METHODS.get((k, name))
                    if r is not None:
                        return r(self, *args, **kwargs)
                if st is str:
                    return str_method(self, name, args, kwargs)
                if st is bytes:
                    return bytes_method(self, name, args, kwargs)
                if issubclass(st, list) and name in _LIST_OK:
                    return f(*args, **kwargs)
                if st is list or st is tuple:
                    return seq_method(self, name, args, kwargs)
                if issubclass(st, dict) and name in _DICT_VALUE_OK:
                    return f(*args, **kwargs)
                if issubclass(st, collections.deque):
                    return f(*args, **kwargs)
                if name in _OBJ_OK:
                    return f(*args, **kwargs)
                if st.__module__ == "numpy":
                    return np_method(self, name, f, args, kwargs)
                if isinstance(self, type) and name in ("__new__", "_make"):
                    return f(*args, **kwargs)
                if st is logging.Logger:
                    return None
                raise Leak("symbolic argument of C method %s.%s" % (st.__name__, name))
            return f(*args, **kwargs)
        if id(f) in TRANSPARENT:
            return f(*args, **kwargs)
        if any_sym(args, kwargs):
            raise Leak("symbolic argument of C function %s" % name)
        return f(*args, **kwargs)
    if isinstance(f, type):
        if id(f) in TRANSPARENT:
            return f(*args, **kwargs)
        if f.__flags__ & (1 << 9):  # heap type: a Python class
            return f(*args, **kwargs)
        if issubclass(f, BaseException):
            return f(*args, **kwargs)
        if any_sym(args, kwargs):
            raise Leak("symbolic argument of C type %s" % f.__name__)
        return f(*args, **kwargs)
    return f(*args, **kwargs)


# ------------------------------------------------------------------ builtins
def b_len(x):
    return len(x)


def b_str(*args, **kw):
    if not args:
        return ""
    x = args[0]
    if is_strlike(x):
        return x
    if isinstance(x, BaseException) and not isinstance(x, Sym) and len(x.args) == 1 and has_sym(x.args):
        return b_str(x.args[0])
    if isinstance(type(x), type) and issubclass(type(x), Sym):
        if isinstance(x, SymBytes):
            raise Leak("str(bytes)")
        return LazyStr((NumText(x),))
    if has_sym(x):
        return b_repr(x)
    f = repo_text(type(x), "__str__") or (repo_text(type(x), "__repr__") if type(x).__str__ is object.__str__ else None)
    if f is not None:
        return f(x)
    return str(*args, **kw)


def repo_text(t, name):
    """__str__/__repr__ defined in the code under test (may return symbolic text)"""
    f = getattr(t, name, None)
    return f if type(f) is types.FunctionType and f.__module__ and f.__module__.startswith("earthkit.regrid") else None


def b_repr(x):
    f = repo_text(type(x), "__repr__")
    if f is not None:
        return f(x)
    if type(x) in (list, tuple):
        body = []
        for i, y in enumerate(x):
            if i:
                body.append(", ")
            body.append(b_repr(y))
        if type(x) is list:
            return mklazy(["["] + body + ["]"])
        return mklazy(["("] + body + [",)" if len(x) == 1 else ")"])
    if issubclass(type(x), SymStr):
        return mklazy(["'", x, "'"])
    if issubclass(type(x), Sym):
        return LazyStr((NumText(x),))
    if has_sym(x):
        return LazyStr((OpaqueText(x),))
    return repr(x)


class OpaqueText:
    """Text nobody should need (repr of a structure with symbolic content)."""

    def __init__(self, x):
        self.x = x


def b_int(*args, **kw):
    if not args:
        return 0
    x = args[0]
    if isinstance(x, SymStr):
        return V.str_to_int(x, *[a for a in args[1:]], **kw)
    t = type(x)
    if t is SymInt:
        return x
    if t is SymBool:
        return x._int()
    if t is SymFloat:
        return V.mkint(x.__trunc__().e)
    if issubclass(t, SymBytes):
        return V.str_to_int(x.decode())
    return int(*args, **kw)


def b_float(*args):
    if not args:
        return 0.0
    x = args[0]
    t = type(x)
    if t is SymInt:
        return SymFloat(V.z3.ToReal(x.e))
    if t is SymBool:
        return SymFloat(V.z3.ToReal(x._int().e))
    if t is SymFloat:
        return x
    if issubclass(t, SymStr):
        return str_to_float(x)
    return float(*args)


def str_to_float(s):
    """float(str) for plain decimal notation [sign]digits[.digits]."""
    s2 = s.strip()
    if not is_sym(s2):
        return float(s2)
    cs = list(s2.chars)
    neg = False
    if cs and V.mkbool(V.char_eq(cs[0], "-")):
        neg, cs = True, cs[1:]
    elif cs and V.mkbool(V.char_eq(cs[0], "+")):
        cs = cs[1:]
    tot = V.z3.IntVal(0)
    nd = 0
    frac = None
    for c in cs:
        if V.mkbool(V.char_is_digit(c)):
            tot = tot * 10 + (V._cexpr(c) - 48)
            nd += 1
            if frac is not None:
                frac += 1
        elif frac is None and V.mkbool(V.char_eq(c, ".")):
            frac = 0
        elif V.mkbool(V.z3.Or(*[V.char_eq(c, x) for x in "eEnNiIaAfF_"])):
            raise Leak("float() of exponent/inf/nan text")
        else:
            raise ValueError("could not convert string to float")
    if nd == 0:
        raise ValueError("could not convert string to float")
    r = V.z3.ToReal(tot) / (10 ** (frac or 0))
    return SymFloat(V.z3.simplify(-r if neg else r))


def b_bool(x=False):
    if is_sym(x):
        return True if x else False
    return bool(x)


def b_abs(x):
    return abs(x)


def _minmax(args, kw, less):
    key = kw.get("key")
    items = list(args[0]) if len(args) == 1 else list(args)
    if not items:
        if "default" in kw:
            return kw["default"]
        raise ValueError("arg is an empty sequence")
    k = (lambda x: sx_call(key, x)) if key is not None else (lambda x: x)
    best, bk = items[0], k(items[0])
    allnum = key is None and all(V.is_num(i) for i in items)
    for it in items[1:]:
        ik = k(it)
        c = sx_lt(ik, bk) if less else sx_lt(bk, ik)
        if allnum and is_sym(c) and all(V.is_intlike(i) for i in items):
            best = V.sym_ite(c, it, best)
            bk = best
        elif c:
            best, bk = it, ik
    return best


def sx_lt(a, b):
    """a < b with tuples compared element-wise over proxies."""
    if type(a) in (tuple, list) and type(b) in (tuple, list) and (has_sym(a) or has_sym(b)):
        for x, y in zip(a, b):
            e = x == y
            if not e:
                return sx_lt(x, y)
        return len(a) < len(b)
    return a < b


def b_min(*args, **kw):
    return _minmax(args, kw, True)


def b_max(*args, **kw):
    return _minmax(args, kw, False)


def b_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


class _Key:
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __lt__(self, o):
        return bool(sx_lt(self.k, o.k))


def b_sorted(it, *, key=None, reverse=False):
    items = list(it)
    if key is None:
        return sorted(items, key=_Key, reverse=reverse)
    return sorted(items, key=lambda x: _Key(sx_call(key, x)), reverse=reverse)


def b_round(x, n=None):
    if is_sym(x):
        return x.__round__(n) if n is not None else x.__round__()
    return round(x, n) if n is not None else round(x)


def b_divmod(a, b):
    if is_sym(a) or is_sym(b):
        return a // b, a % b
    return divmod(a, b)


def b_pow(a, b, *m):
    if is_sym(a) or is_sym(b):
        return a**b
    return pow(a, b, *m)


def b_ord(c):
    if isinstance(c, SymStr):
        if len(c) != 1:
            raise TypeError("ord() expected a character")
        return V.mkint(V._cexpr(c.chars[0]))
    if type(c) is SymBytes:
        if len(c) != 1:
            raise TypeError("ord() expected a character")
        return V.byteval(c.b[0])
    return ord(c)


def b_chr(c):
    if is_sym(c):
        return V.mkstr((c.e,))
    return chr(c)


def b_range(*a):
    return range(*[V.concretize(x) for x in a])


def b_print(*a, **k):
    f = k.get("file")
    if f is None or f in (sys.stdout, sys.stderr):
        return None
    sep = k.get("sep", " ") or " "
    end = k.get("end", "\n")
    end = "\n" if end is None else end
    parts = []
    for i, x in enumerate(a):
        if i:
            parts.append(sep)
        parts.append(b_str(x))
    sx_call(f.write, mklazy(parts + [end]))


def b_hash(x):
    if has_sym(x):
        raise Leak("hash()")
    return hash(x)


def b_format(x, spec=""):
    if has_sym(x):
        return fmt_one(x, spec)
    return format(x, spec)


def b_dict(*args, **kw):
    d = {}
    dict_update(d, args, kw)
    return d


def b_ordereddict(*args, **kw):
    d = collections.OrderedDict()
    dict_update(d, args, kw)
    return d


def b_set(it=()):
    return sx_set(list(it))


def b_frozenset(it=()):
    it = list(it)
    if any(has_sym(x) for x in it):
        return sx_set(it)
    return frozenset(it)


def b_bytes(*a, **k):
    if a and type(a[0]) in (list, tuple) and has_sym(a[0]):
        return V.mkbytes(tuple(x.e if type(x) is SymInt else x for x in a[0]))
    if a and type(a[0]) is SymBytes:
        return a[0]
    if a and isinstance(a[0], SymStr):
        return a[0].encode()
    return bytes(*a, **k)


def b_all(it):
    for x in it:
        if not x:
            return False
    return True


def b_any(it):
    for x in it:
        if x:
            return True
    return False


_PYTYPE = {SymBool: bool, SymInt: int, SymFloat: float, SymStr: str, LazyStr: str, SymBytes: bytes}


def b_type(*a, **k):
    if len(a) == 1:
        return _PYTYPE.get(type(a[0]), type(a[0]))
    return type(*a, **k)


def b_map(f, *its):
    return (sx_call(f, *xs) for xs in zip(*its))


def b_filter(f, it):
    return (x for x in it if (x if f is None else sx_call(f, x)))


def b_reduce(f, it, *init):
    it = iter(it)
    acc = init[0] if init else next(it)
    for x in it:
        acc = sx_call(f, acc, x)
    return acc


for _o, _r in (
    (map, b_map),
    (filter, b_filter),
    (functools.reduce, b_reduce),
    (len, b_len),
    (str, b_str),
    (repr, b_repr),
    (int, b_int),
    (float, b_float),
    (bool, b_bool),
    (abs, b_abs),
    (min, b_min),
    (max, b_max),
    (sum, b_sum),
    (sorted, b_sorted),
    (round, b_round),
    (divmod, b_divmod),
    (pow, b_pow),
    (ord, b_ord),
    (chr, b_chr),
    (range, b_range),
    (print, b_print),
    (hash, b_hash),
    (format, b_format),
    (dict, b_dict),
    (collections.OrderedDict, b_ordereddict),
    (set, b_set),
    (frozenset, b_frozenset),
    (bytes, b_bytes),
    (all, b_all),
    (any, b_any),
    (type, b_type),
    (math.fsum, b_sum),
    (math.fabs, lambda x: abs(b_float(x))),
    (math.floor, lambda x: V.mkint(x.__floor__().e) if is_sym(x) and type(x) is SymFloat else (x if is_sym(x) else math.floor(x))),
    (math.ceil, lambda x: V.mkint(x.__ceil__().e) if is_sym(x) and type(x) is SymFloat else (x if is_sym(x) else math.ceil(x))),
    (math.trunc, lambda x: V.mkint(x.__trunc__().e) if is_sym(x) and type(x) is SymFloat else (x if is_sym(x) else math.trunc(x))),
    (math.isnan, lambda x: False if is_sym(x) else math.isnan(x)),
    (math.isinf, lambda x: False if is_sym(x) else math.isinf(x)),
    (math.isfinite, lambda x: True if is_sym(x) else math.isfinite(x)),
    (operator.contains, lambda a, b: sx_in(b, a)),
    (operator.getitem, lambda a, b: sx_getitem(a, b)),
    (operator.index, lambda a: a if type(a) is SymInt else operator.index(a)),
):
    override(_o, _r)


def m_isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    if is_sym(a) or is_sym(b):
        d = abs(a - b)
        return V.sym_or(d <= b_max(rel_tol * b_max(abs(a), abs(b)), abs_tol))
    return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


def m_prod(it, *, start=1):
    r = start
    for x in it:
        r = r * x
    return r


def m_fmod(a, b):
    if not (is_sym(a) or is_sym(b)):
        return math.fmod(a, b)
    r = abs(a) % abs(b)
    return -r if a < 0 else r


override(math.isclose, m_isclose)
override(math.prod, m_prod)
override(math.fmod, m_fmod)
override(
    math.remainder,
    lambda a, b: a - b * b_round(a / b) if is_sym(a) or is_sym(b) else math.remainder(a, b),
)
override(
    math.copysign,
    lambda a, b: (abs(a) if b >= 0 else -abs(a)) if is_sym(a) or is_sym(b) else math.copysign(a, b),
)


# --------------------------------------------------------------------- items
SYMDICTS = {}  # id(dict) -> dict, dictionaries holding a symbolic key
SYMSETS = {}


def reset_run():
    SYMDICTS.clear()
    SYMSETS.clear()


def _symdict(d):
    return id(d) in SYMDICTS


def _symset(s):
    return id(s) in SYMSETS


def sx_eq(a, b):
    """== where tuples/lists of proxies yield a single symbolic condition."""
    ta, tb = type(a), type(b)
    if ta in (tuple, list) and tb in (tuple, list) and (has_sym(a) or has_sym(b)):
        if (ta is list) != (tb is list) or len(a) != len(b):
            return False
        return sym_and(*[sx_eq(x, y) for x, y in zip(a, b)])
    if ta is not tb:
        # unrelated proxies never equal; avoids weird reflected calls
        if issubclass(ta, SymStr) and not is_strlike(b):
            return False
        if issubclass(tb, SymStr) and not is_strlike(a):
            return False
    return a == b


def find_key(d, k):
    """The stored key equal to k on this path, or (False, None)."""
    if not has_sym(k) and not _symdict(d):
        return (dict.__contains__(d, k), k)
    for kk in list(dict.keys(d)):
        if kk is k:
            return True, kk
        if sx_eq(kk, k):
            return True, kk
    return False, None


def _hashed(fn, *a):
    old = HASHOK[0]
    HASHOK[0] = True
    try:
        return fn(*a)
    finally:
        HASHOK[0] = old


def raw_dict_get(d, k):
    return _hashed(dict.__getitem__, d, k)


def raw_dict_set(d, k, v):
    if has_sym(k):
        SYMDICTS[id(d)] = d
    _hashed(type(d).__setitem__ if type(d).__setitem__ is not dict.__setitem__ else dict.__setitem__, d, k, v)


def sx_getitem(o, k):
    t = type(o)
    if issubclass(t, dict):
        if has_sym(k) or _symdict(o):
            ok, kk = find_key(o, k)
            if ok:
                return raw_dict_get(o, kk)
            if hasattr(t, "__missing__"):
                return t.__missing__(o, k)
            raise KeyError(k)
        return o[k]
    if t in (list, tuple, str, bytes, range):
        if type(k) is slice:
            k = slice(*[None if x is None else V.concretize(x) for x in (k.start, k.stop, k.step)])
        elif is_sym(k):
            k = V.concretize(k)
        return o[k]
    if is_sym(k) and t.__module__ == "numpy":
        k = V.concretize(k)
    if type(k) is tuple and t.__module__ == "numpy" and has_sym(k):
        k = tuple(V.concretize(x) if type(x) is SymInt else x for x in k)
    if t is ENVIRON:
        return untoken(o[k])
    return o[k]


def sx_setitem_v(v, o, k):
    sx_setitem(o, k, v)


def sx_setitem(o, k, v):
    t = type(o)
    if issubclass(t, dict):
        if has_sym(k) or _symdict(o):
            ok, kk = find_key(o, k)
            raw_dict_set(o, kk if ok else k, v)
            return
        o[k] = v
        return
    if t is list and is_sym(k):
        k = V.concretize(k)
    if t.__module__ == "numpy" and getattr(o, "dtype", None) is not None:
        np_setitem(o, k, v)
        return
    o[k] = v


_OPS = {
    "Add": operator.iadd,
    "Sub": operator.isub,
    "Mult": operator.imul,
    "Div": operator.itruediv,
    "FloorDiv": operator.ifloordiv,
    "Mod": operator.imod,
    "BitOr": operator.ior,
    "BitAnd": operator.iand,
    "BitXor": operator.ixor,
    "LShift": operator.ilshift,
    "RShift": operator.irshift,
    "Pow": operator.ipow,
}


def sx_augitem(o, k, op, val):
    cur = sx_getitem(o, k)
    sx_setitem(o, k, _OPS[op](cur, val()))


def sx_delitem(o, k):
    if issubclass(type(o), dict) and (has_sym(k) or _symdict(o)):
        ok, kk = find_key(o, k)
        if not ok:
            raise KeyError(k)
        _hashed(type(o).__delitem__, o, kk)
        return
    if type(k) is slice:
        k = slice(*[None if x is None else V.concretize(x) for x in (k.start, k.stop, k.step)])
    elif is_sym(k) and not issubclass(type(o), dict):
        k = V.concretize(k)
    del o[k]


def dict_update(d, args, kw):
    for a in args:
        if a is None:
            continue
        if issubclass(type(a), dict):
            for k in list(dict.keys(a)):
                sx_setitem(d, k, raw_dict_get(a, k) if type(a).__getitem__ is dict.__getitem__ else a[k])
        elif hasattr(a, "keys"):
            for k in a.keys():
                sx_setitem(d, k, a[k])
        else:
            for k, v in a:
                sx_setitem(d, k, v)
    for k, v in kw.items():
        sx_setitem(d, k, v)


def dict_method(d, name, args, kwargs):
    if name == "update":
        if type(d).update is not dict.update and not isinstance(d, collections.OrderedDict):
            return type(d).update(d, *args, **kwargs)
        dict_update(d, args, kwargs)
        return None
    if not (args and (has_sym(args[0]) or _symdict(d))):
        return getattr(d, name)(*args, **kwargs)
    k = args[0]
    ok, kk = find_key(d, k)
    if name == "get":
        if ok:
            return raw_dict_get(d, kk)
        return args[1] if len(args) > 1 else kwargs.get("default")
    if name == "__contains__":
        return ok
    if name == "__getitem__":
        return sx_getitem(d, k)
    if name == "__setitem__":
        return sx_setitem(d, k, args[1])
    if name == "__delitem__":
        return sx_delitem(d, k)
    if name == "setdefault":
        if ok:
            return raw_dict_get(d, kk)
        dv = args[1] if len(args) > 1 else None
        raw_dict_set(d, k, dv)
        return dv
    if name == "pop":
        if ok:
            return _hashed(type(d).pop, d, kk)
        if len(args) > 1:
            return args[1]
        if "default" in kwargs:
            return kwargs["default"]
        raise KeyError(k)
    if name == "move_to_end":
        if not ok:
            raise KeyError(k)
        return _hashed(lambda: d.move_to_end(kk, *args[1:], **kwargs))
    raise Leak("dict.%s with a symbolic key" % name)


def sx_dict(items):
    d = {}
    for k, v in items:
        if k is STAR:
            dict_update(d, (v,), {})
        else:
            sx_setitem(d, k, v)
    return d


class _Star:
    pass


STAR = _Star()


class SymSet(list):
    """A set with symbolic members (linear, forks on equality)."""

    @property
    def __class__(self):
        return set

    def __init__(self, items=()):
        super().__init__()
        for i in items:
            self.add(i)

    def add(self, x):
        if not self._has(x):
            list.append(self, x)

    def _has(self, x):
        for y in self:
            if sx_eq(x, y):
                return True
        return False

    __contains__ = _has

    def discard(self, x):
        for i, y in enumerate(self):
            if sx_eq(x, y):
                list.pop(self, i)
                return

    def remove(self, x):
        if not self._has(x):
            raise KeyError(x)
        self.discard(x)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def __eq__(self, o):
        return len(self) == len(o) and all(sx_in(x, o) for x in self)

    def __ne__(self, o):
        return not self == o

    def __or__(self, o):
        return SymSet(list(self) + list(o))

    __ror__ = union = __or__

    def __and__(self, o):
        return SymSet([x for x in self if sx_in(x, o)])

    __rand__ = intersection = __and__

    def __sub__(self, o):
        return SymSet([x for x in self if not sx_in(x, o)])

    difference = __sub__

    def __rsub__(self, o):
        return SymSet([x for x in o if not self._has(x)])

    def issubset(self, o):
        return all(sx_in(x, o) for x in self)

    __le__ = issubset

    def issuperset(self, o):
        return all(self._has(x) for x in o)

    __ge__ = issuperset

    def copy(self):
        return SymSet(self)

    __hash__ = None


def sx_set(items):
    if any(has_sym(x) for x in items):
        return SymSet(items)
    return set(items)


def set_method(s, name, args, kwargs):
    if issubclass(type(s), SymSet):
        return getattr(s, name)(*args, **kwargs)
    if name in ("union", "intersection", "difference", "issubset", "issuperset", "copy"):
        return getattr(SymSet(s), name)(*args, **kwargs)
    if name in ("discard", "remove"):
        for y in list(s):
            if sx_eq(y, args[0]):
                s.discard(y)
                return None
        if name == "remove":
            raise KeyError(args[0])
        return None
    raise Leak("set.%s with symbolic member" % name)


def sx_in(a, b):
    tb = type(b)
    if issubclass(tb, dict):
        if tb.__contains__ is not dict.__contains__ and not isinstance(b, collections.OrderedDict):
            return tb.__contains__(b, a)
        return find_key(b, a)[0]
    if tb in (list, tuple) or issubclass(tb, (list, tuple)):
        if has_sym(a) or has_sym(b, 3):
            for x in b:
                if x is a or sx_eq(x, a):
                    return True
            return False
        return a in b
    if tb in (set, frozenset) and has_sym(a):
        for x in b:
            if sx_eq(x, a):
                return True
        return False
    if issubclass(tb, str) or issubclass(tb, SymStr):
        if is_sym(a) or is_sym(b):
            if not is_strlike(a):
                raise TypeError("'in <string>' requires string as left operand")
            return True if SymStr(V.schars(b))._contains(a) else False
    if tb in (type({}.keys()), type(collections.OrderedDict().keys())) and has_sym(a):
        for x in b:
            if sx_eq(x, a):
                return True
        return False
    if tb in (type({}.keys()), type(collections.OrderedDict().keys())):
        m = b.mapping
        return find_key(b_dict(m) if not isinstance(m, dict) else _unproxy(m), a)[0]
    if tb is range and is_sym(a):
        c = sym_and(a >= b.start, a < b.stop) if b.step == 1 else None
        if c is None:
            raise Leak("in range(step)")
        return True if c else False
    if has_sym(a) and tb.__flags__ & (1 << 9) == 0 and not issubclass(tb, Sym):
        if hasattr(b, "__iter__"):
            for x in b:
                if sx_eq(x, a):
                    return True
            return False
        raise Leak("symbolic value `in` %s" % tb.__name__)
    return a in b


def _unproxy(m):
    return dict(m)


def sx_not_in(a, b):
    return not sx_in(a, b)


def sx_is(a, b):
    if type(b) is bool and type(a) is SymBool:
        return True if a == b else False
    if type(a) is bool and type(b) is SymBool:
        return True if b == a else False
    if issubclass(type(a), Sym) and isinstance(b, type):
        return False
    return a is b


def sx_is_not(a, b):
    return not sx_is(a, b)


_CMP = {
    "Lt": operator.lt,
    "LtE": operator.le,
    "Gt": operator.gt,
    "GtE": operator.ge,
    "Eq": operator.eq,
    "NotEq": operator.ne,
    "In": sx_in,
    "NotIn": sx_not_in,
    "Is": sx_is,
    "IsNot": sx_is_not,
}


def sx_chain(ops, *thunks):
    left = thunks[0]()
    r = True
    for op, th in zip(ops, thunks[1:]):
        right = th()
        r = _CMP[op](left, right)
        if not r:
            return r
        left = right
    return r


def seq_method(s, name, args, kwargs):
    if name == "index":
        for i, x in enumerate(s):
            if sx_eq(x, args[0]):
                return i
        raise ValueError("not in list")
    if name == "count":
        return sum(1 for x in s if sx_eq(x, args[0]))
    if name == "remove":
        for i, x in enumerate(s):
            if sx_eq(x, args[0]):
                del s[i]
                return None
        raise ValueError("list.remove(x): x not in list")
    if name == "sort":
        s[:] = b_sorted(s, **kwargs)
        return None
    if name in ("__eq__", "__ne__", "__add__", "__mul__", "__iadd__"):
        return getattr(s, name)(*args)
    raise Leak("%s.%s" % (type(s).__name__, name))


# ------------------------------------------------------------------- strings
def str_method(s, name, args, kwargs):
    if name == "join":
        items = list(args[0])
        if any(isinstance(x, LazyStr) for x in items):
            parts = []
            for i, x in enumerate(items):
                if i:
                    parts.append(s)
                parts.append(x)
            return mklazy(parts)
        for x in items:
            if not is_strlike(x):
                raise TypeError("sequence item: expected str instance")
        return V.str_join(s, items)
    if name == "format":
        return str_format(s, args, kwargs)
    return getattr(SymStr(tuple(s)), name)(*args, **kwargs)


def bytes_method(s, name, args, kwargs):
    if name == "join":
        out = ()
        sep = tuple(s)
        for i, x in enumerate(args[0]):
            if i:
                out += sep
            out += x.b if type(x) is SymBytes else tuple(x)
        return V.mkbytes(out)
    raise Leak("bytes.%s" % name)


def fmt_one(v, spec, conv=""):
    if conv == "r":
        v = b_repr(v)
    elif conv == "s":
        v = b_str(v)
    if not has_sym(v):
        return format(v, spec)
    if spec in ("", "s", "d") or spec is None:
        return b_str(v)
    if is_strlike(v) and re.fullmatch(r"[<>]?\d+", spec):
        w = int(spec.lstrip("<>"))
        return v.rjust(w) if spec[0] == ">" else v.ljust(w)
    if type(v) is SymInt and re.fullmatch(r"0?\d+d?", spec):
        w = int(spec.rstrip("d"))
        t = V.int_text(v)
        t = t if is_sym(t) else SymStr(tuple(t))
        return t.zfill(w) if spec[0] == "0" else t.rjust(w)
    return LazyStr((OpaqueText((v, spec)),))


def str_format(s, args, kwargs):
    import string

    parts = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        if field == "":
            v = args[auto]
            auto += 1
        else:
            first, rest = string._string.formatter_field_name_split(field)
            v = args[first] if isinstance(first, int) else kwargs[first]
            for is_attr, k in rest:
                v = getattr(v, k) if is_attr else sx_getitem(v, k)
        if spec and "{" in spec:
            spec = spec.format(*args, **kwargs)
        parts.append(fmt_one(v, spec or "", conv or ""))
    return mklazy(parts)


def sx_fstr(parts):
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
        else:
            v, conv, spec = p
            c = {-1: "", 115: "s", 114: "r", 97: "r"}[conv]
            if has_sym(v, 3):
                out.append(fmt_one(v, spec, c))
            else:
                if c == "r":
                    v = b_repr(v)
                elif c == "s" or not spec:
                    v = b_str(v)
                out.append(v if not spec else format(v, spec))
    return mklazy(out)


def sx_mod(a, b):
    if isinstance(a, str) and not issubclass(type(a), Sym):
        if not has_sym(b):
            return a % b
        args = list(b) if type(b) is tuple else [b]
        parts = []
        pos = 0
        for m in re.finditer(r"%(\(\w+\))?([-+ #0]*)(\d+)?(?:\.(\d+))?([sdrifgex%])", a):
            parts.append(a[pos : m.start()])
            pos = m.end()
            c = m.group(5)
            if c == "%":
                parts.append("%")
                continue
            if m.group(1):
                v = b[m.group(1)[1:-1]]
            else:
                v = args.pop(0)
            if not has_sym(v):
                g = m.group(0)
                if m.group(1):
                    g = g.replace(m.group(1), "")
                parts.append(g % ((v,)))
            elif c == "r":
                parts.append(b_repr(v))
            elif c == "s" and not m.group(3):
                parts.append(b_str(v))
            elif c in "di" and not m.group(3):
                parts.append(b_str(b_int(v)))
            else:
                parts.append(LazyStr((OpaqueText((v, m.group(0))),)))
        parts.append(a[pos:])
        return mklazy(parts)
    return a % b


# --------------------------------------------------------------------- regex
def _sre():
    import re._parser as p
    import re._constants as c

    return p, c


class SymMatch:
    def __init__(self, s, groups, names, re_):
        self.string = s
        self._g = groups
        self._names = names
        self.re = re_

    def _idx(self, g):
        return self._names[g] if isinstance(g, str) else g

    def group(self, *gs):
        if not gs:
            gs = (0,)
        r = []
        for g in gs:
            sp = self._g.get(self._idx(g))
            r.append(None if sp is None else self.string[sp[0] : sp[1]])
        return r[0] if len(r) == 1 else tuple(r)

    def __getitem__(self, g):
        return self.group(g)

    def groups(self, default=None):
        n = self.re.groups
        return tuple(default if self.group(i) is None else self.group(i) for i in range(1, n + 1))

    def groupdict(self, default=None):
        return {k: self.group(k) for k in self._names}

    def start(self, g=0):
        sp = self._g.get(self._idx(g))
        return -1 if sp is None else sp[0]

    def end(self, g=0):
        sp = self._g.get(self._idx(g))
        return -1 if sp is None else sp[1]

    def span(self, g=0):
        return self.start(g), self.end(g)

    def __bool__(self):
        return True


def _cat(c, name):
    z3 = V.z3
    name = str(name)
    if name.endswith("_NOT_DIGIT"):
        return z3.Not(V.char_is_digit(c))
    if name.endswith("_DIGIT"):
        return V.char_is_digit(c)
    word = z3.Or(V.char_is_alpha(c), V.char_is_digit(c), V.char_eq(c, "_"))
    if name.endswith("_NOT_WORD"):
        return z3.Not(word)
    if name.endswith("_WORD"):
        return word
    if name.endswith("_NOT_SPACE"):
        return z3.Not(V.char_is_space(c))
    if name.endswith("_SPACE"):
        return V.char_is_space(c)
    raise Leak("regex category %s" % name)


def _lit(c, code, ic):
    z3 = V.z3
    ch = chr(code)
    if ic and ch.lower() != ch.upper():
        return z3.Or(V.char_eq(c, ch.lower()), V.char_eq(c, ch.upper()))
    return V.char_eq(c, ch)


def _charset(c, items, ic):
    _, C = _sre()
    z3 = V.z3
    neg = False
    alts = []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            alts.append(_lit(c, av, ic))
        elif op is C.RANGE:
            lo, hi = av
            alts.append(V.char_in_range(c, lo, hi))
            if ic:
                alts.append(V.char_in_range(V.char_lower(c), lo, hi))
                alts.append(V.char_in_range(V.char_upper(c), lo, hi))
        elif op is C.CATEGORY:
            alts.append(_cat(c, av))
        else:
            raise Leak("regex set %s" % op)
    r = z3.Or(*alts) if alts else z3.BoolVal(False)
    return z3.Not(r) if neg else r


def re_match_at(pat, s, start, mode):
    """Backtracking matcher; forks on symbolic characters."""
    P, C = _sre()
    tree = P.parse(pat.pattern, pat.flags & ~re.UNICODE if isinstance(pat.pattern, str) else pat.flags)
    ic = bool(pat.flags & re.IGNORECASE)
    ml = bool(pat.flags & re.MULTILINE)
    dotall = bool(pat.flags & re.DOTALL)
    cs = V.schars(s)
    n = len(cs)

    def test(c, e):
        return True if V.mkbool(e) else False

    def seq(nodes, i, pos, groups, k):
        if i == len(nodes):
            return k(pos, groups)
        op, av = nodes[i]
        nxt = lambda p, g: seq(nodes, i + 1, p, g, k)  # noqa: E731
        if op is C.LITERAL:
            return nxt(pos + 1, groups) if pos < n and test(None, _lit(cs[pos], av, ic)) else None
        if op is C.NOT_LITERAL:
            return nxt(pos + 1, groups) if pos < n and not test(None, _lit(cs[pos], av, ic)) else None
        if op is C.ANY:
            if pos < n and (dotall or not test(None, V.char_eq(cs[pos], "\n"))):
                return nxt(pos + 1, groups)
            return None
        if op is C.IN:
            return nxt(pos + 1, groups) if pos < n and test(None, _charset(cs[pos], av, ic)) else None
        if op is C.AT:
            if av in (C.AT_BEGINNING_STRING,) or (av is C.AT_BEGINNING and not ml):
                return nxt(pos, groups) if pos == 0 else None
            if av is C.AT_END_STRING:
                return nxt(pos, groups) if pos == n else None
            if av is C.AT_END and not ml:
                if pos == n or (pos == n - 1 and test(None, V.char_eq(cs[pos], "\n"))):
                    return nxt(pos, groups)
                return None
            raise Leak("regex anchor %s" % av)
        if op is C.SUBPATTERN:
            gid, _, _, sub = av
            def done(p, g, pos=pos):
                if gid is not None:
                    g = dict(g)
                    g[gid] = (pos, p)
                return nxt(p, g)
            return seq(list(sub), 0, pos, groups, done)
        if op is C.BRANCH:
            for alt in av[1]:
                r = seq(list(alt), 0, pos, groups, nxt)
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            greedy = op is C.MAX_REPEAT

            def rep(count, p, g):
                def more():
                    if hi is not C.MAXREPEAT and count >= hi:
                        return None
                    return seq(sub, 0, p, g, lambda p2, g2: rep(count + 1, p2, g2) if p2 > p or count < lo else None)

                if count < lo:
                    return more()
                if greedy:
                    r = more()
                    return r if r is not None else nxt(p, g)
                r = nxt(p, g)
                return r if r is not None else more()

            return rep(0, pos, groups)
        raise Leak("regex op %s" % op)

    def accept(p, g):
        if mode == "fullmatch" and p != n:
            return None
        return (p, g)

    r = seq(list(tree), 0, start, {}, accept)
    if r is None:
        return None
    p, g = r
    g = dict(g)
    g[0] = (start, p)
    return SymMatch(s, g, dict(pat.groupindex), pat)


def re_do(mode):
    def f(pat, s, *rest):
        if isinstance(pat, str):
            pat = re.compile(pat, *rest)
            rest = ()
        if not is_sym(s):
            return getattr(pat, mode)(s, *rest)
        if mode in ("match", "fullmatch"):
            return re_match_at(pat, s, 0, mode)
        for i in range(len(s) + 1):
            m = re_match_at(pat, s, i, "match")
            if m is not None:
                return m
        return None

    return f


for _m in ("match", "fullmatch", "search"):
    override(getattr(re, _m), re_do(_m))
    override_method(re.Pattern, _m, re_do(_m))


def re_sub(pat, repl, s, count=0, flags=0):
    if isinstance(pat, str):
        pat = re.compile(pat, flags)
    if not is_sym(s):
        return pat.sub(repl, s, count)
    raise Leak("re.sub on symbolic text")


override(re.sub, re_sub)


# ------------------------------------------------------- json / sha256 model
class SymJson:
    """JSON text of a structure with symbolic content (canonical form)."""

    def __init__(self, canon, value):
        self.canon = canon
        self.value = value

    @property
    def __class__(self):
        return str

    def encode(self, *a):
        return SymJsonBytes(self)

    def __eq__(self, o):
        if type(o) is SymJson:
            return canon_eq(self.canon, o.canon)
        return False

    __hash__ = None


class SymJsonBytes:
    def __init__(self, j):
        self.j = j

    @property
    def __class__(self):
        return bytes

    def decode(self, *a):
        return self.j


def canon(x, sort_keys, default):
    t = type(x)
    if x is None or t is bool or t is int or t is float or t is str:
        return ("c", json.dumps(x))
    if issubclass(t, SymStr):
        return ("str", x)
    if t is SymBool:
        return ("bool", x)
    if t is SymInt:
        return ("int", x)
    if t is SymFloat:
        return ("float", x)
    if issubclass(t, (list, tuple)):
        return ("list", tuple(canon(y, sort_keys, default) for y in x))
    if issubclass(t, dict):
        items = [(k, x[k]) for k in dict.keys(x)]
        if sort_keys:
            items = sorted(items)
        return ("dict", tuple((("c", json.dumps(k)), canon(v, sort_keys, default)) for k, v in items))
    if issubclass(t, (int, float, str)):
        return ("c", json.dumps(x))
    if default is not None:
        return canon(sx_call(default, x), sort_keys, default)
    raise TypeError("Object of type %s is not JSON serializable" % t.__name__)


def canon_eq(a, b):
    if a[0] == "c" and b[0] == "c":
        return a[1] == b[1]
    if a[0] in ("list", "dict") or b[0] in ("list", "dict"):
        if a[0] != b[0] or len(a[1]) != len(b[1]):
            return False
        if a[0] == "list":
            return sym_and(*[canon_eq(x, y) for x, y in zip(a[1], b[1])])
        return sym_and(*[c for x, y in zip(a[1], b[1]) for c in (canon_eq(x[0], y[0]), canon_eq(x[1], y[1]))])
    if a[0] == "c":
        a, b = b, a
    k, v = a
    if b[0] == "c":
        c = json.loads(b[1])
        tc = type(c)
        if k == "str":
            return v == c if tc is str else False
        if k == "bool":
            return v == c if tc is bool else False
        if k == "int":
            return v == c if tc is int else False
        if k == "float":
            return v == c if tc is float else False
    if b[0] != k:
        return False
    return v == b[1]


def json_dumps(x, *, sort_keys=False, default=None, **kw):
    if not _deep_sym(x):
        return json.dumps(x, sort_keys=sort_keys, default=default, **kw)
    return SymJson(canon(x, sort_keys, default), x)


def _deep_sym(x):
    t = type(x)
    if issubclass(t, Sym) or t is SymJson:
        return True
    if issubclass(t, (list, tuple)):
        return any(_deep_sym(y) for y in x)
    if issubclass(t, dict):
        return any(_deep_sym(y) for y in dict.values(x)) or any(is_sym(k) for k in dict.keys(x))
    return False


def json_loads(s, **kw):
    if type(s) is SymJson:
        return _jsonify(s.value)
    if type(s) is SymJsonBytes:
        return _jsonify(s.j.value)
    if issubclass(type(s), Sym):
        raise Leak("json.loads of symbolic text")
    return untoken(json.loads(s, **kw))


# Symbolic leaves of JSON documents on disk: the document holds a token text
# and the parsed structure gets the symbolic value back.
TOKENS = []


def token(v):
    TOKENS.append(v)
    return "@@SYM%d@@" % (len(TOKENS) - 1)


def untoken(x):
    if not TOKENS:
        return x
    t = type(x)
    if t is str:
        if x.startswith("@@SYM") and x.endswith("@@"):
            return TOKENS[int(x[5:-2])]
        if "@@SYM" in x:
            raise Leak("symbolic text used as a part of a document")
        return x
    if t is list:
        return [untoken(y) for y in x]
    if t is dict:
        return sx_dict([(untoken(k), untoken(v)) for k, v in x.items()])
    return x


def json_load(f, **kw):
    return json_loads(f.read(), **kw)


def _jsonify(x):
    t = type(x)
    if issubclass(t, (list, tuple)):
        return [_jsonify(y) for y in x]
    if issubclass(t, dict):
        return {k: _jsonify(x[k]) for k in dict.keys(x)}
    return x


def retoken(x):
    t = type(x)
    if issubclass(t, Sym):
        return token(x)
    if issubclass(t, (list, tuple)):
        return [retoken(y) for y in x]
    if issubclass(t, dict):
        return {(token(k) if is_sym(k) else k): retoken(x[k]) for k in list(x.keys())}
    return x


def json_dump(x, fp, **kw):
    return json.dump(retoken(x) if _deep_sym(x) else x, fp, **kw)


override(json.dump, json_dump)
override(json.dumps, json_dumps)
override(json.loads, json_loads)
override(json.load, json_load)


# set by harnesses where yaml text only goes to the stand-in of another library
YAML_TEXT = []


def _yaml():
    import yaml

    def mkdump(f):
        def dump(data, stream=None, **kw):
            if _deep_sym(data):
                if stream is None and not YAML_TEXT:
                    raise Leak("yaml text of a symbolic value")
                data = retoken(data)
            return f(data, stream, **kw)

        return dump

    for n in ("dump", "safe_dump"):
        override(getattr(yaml, n), mkdump(getattr(yaml, n)))

    def mkload(f):
        def load(stream, *a, **kw):
            return untoken(f(stream, *a, **kw))

        return load

    for n in ("load", "safe_load", "full_load"):
        override(getattr(yaml, n), mkload(getattr(yaml, n)))


_yaml()


ENVIRON = type(os.environ)


def _environ():
    import collections.abc

    def wrap(fn):
        def f(self, *a, **k):
            r = fn(self, *a, **k)
            if type(self) is ENVIRON and TOKENS:
                return [tuple(untoken(y) for y in x) for x in r] if fn is collections.abc.Mapping.items else untoken(r)
            return r

        return f

    for fn in (collections.abc.Mapping.get, collections.abc.Mapping.items, collections.abc.MutableMapping.pop, ENVIRON.setdefault):
        override_func(fn, wrap(fn))
    override(os.getenv, lambda *a, **k: untoken(os.getenv(*a, **k)))
    override_func(ENVIRON.copy, lambda self: {k: untoken(v) for k, v in self.items()})


_environ()


class Interner:
    """sha/md5 as an injective function: equal input <=> equal digest.

    Digests are concrete text, chosen by forking on equality with the inputs
    digested earlier on this path."""

    def __init__(self):
        self.entries = []

    def digest(self, algo, parts, real):
        for a, p, d in self.entries:
            if a != algo or len(p) != len(parts):
                continue
            if p is parts:
                return d
            c = sym_and(*[part_eq(x, y) for x, y in zip(p, parts)])
            if c:
                return d
        d = real if real is not None else getattr(hashlib, algo)(b"symx-%d" % len(self.entries)).hexdigest()
        self.entries.append((algo, parts, d))
        return d


def part_eq(x, y):
    if type(x) is bytes and type(y) is bytes:
        return x == y
    if type(x) is SymJsonBytes and type(y) is SymJsonBytes:
        return canon_eq(x.j.canon, y.j.canon)
    if type(x) is SymJsonBytes or type(y) is SymJsonBytes:
        # JSON text of a fully concrete structure against a symbolic one
        j, b = (x, y) if type(x) is SymJsonBytes else (y, x)
        if type(b) is bytes:
            try:
                c = canon(json.loads(b.decode()), True, None)
            except Exception:
                return False
            return canon_eq(j.j.canon, c)
        return False
    if type(x) is SymBytes or type(y) is SymBytes:
        return x == y
    if type(x) is V.LazyBytes:
        return x == y
    if type(y) is V.LazyBytes:
        return y == x
    raise Leak("digest input %s" % type(x).__name__)


INTERN = Interner()


class SymHash:
    def __init__(self, algo, real, parts=()):
        self.name = algo
        self.real = real
        self.parts = list(parts)
        self.sym = any(type(p) is not bytes for p in self.parts)

    def update(self, b):
        self.parts.append(b)
        if type(b) is bytes:
            self.real.update(b)
        else:
            self.sym = True

    def hexdigest(self):
        parts = []
        for p in self.parts:
            if type(p) is bytes and parts and type(parts[-1]) is bytes and not self.sym:
                parts[-1] += p
            else:
                parts.append(p)
        return INTERN.digest(self.name, parts, None if self.sym else self.real.hexdigest())

    def digest(self):
        return bytes.fromhex(self.hexdigest())

    def copy(self):
        h = SymHash(self.name, self.real.copy(), self.parts)
        h.sym = self.sym
        return h


def mkhash(algo):
    def f(data=b"", **kw):
        h = SymHash(algo, getattr(hashlib, algo)())
        if type(data) is not bytes or data:
            h.update(data)
        return h

    return f


for _a in ("sha256", "md5", "sha1", "sha512"):
    override(getattr(hashlib, _a), mkhash(_a))
override(hashlib.new, lambda name, data=b"", **k: mkhash(name)(data))


# -------------------------------------------------------------------- struct
def struct_unpack(fmt, data):
    if type(data) is not SymBytes:
        return struct.unpack(fmt, data)
    order = "little"
    f = fmt
    if f and f[0] in "@=<>!":
        order = {"<": "little", ">": "big", "!": "big", "=": sys.byteorder, "@": sys.byteorder}[f[0]]
        std = f[0] != "@"
        f = f[1:]
    else:
        std = False
        order = sys.byteorder
    sizes = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4 if std else 8, "L": 4 if std else 8, "q": 8, "Q": 8}
    items = []
    for m in re.finditer(r"(\d*)([a-zA-Z?])", f):
        if m.group(2) == "s":
            items.append(("s", int(m.group(1) or 1)))
        else:
            items.extend([(m.group(2), 0)] * int(m.group(1) or 1))
    need = sum(n if k == "s" else sizes[k] if k in sizes else _unsupported(k) for k, n in items)
    if need != len(data):
        raise struct.error("unpack requires a buffer of %d bytes" % need)
    out = []
    pos = 0
    for k, n in items:
        if k == "s":
            out.append(data[pos : pos + n])
            pos += n
            continue
        sz = sizes[k]
        bs = data.b[pos : pos + sz]
        pos += sz
        v = V.bytes_to_uint(bs, order)
        if k.islower():
            v = V.mkint(V.z3.If(V.iexpr(v) >= 2 ** (8 * sz - 1), V.iexpr(v) - 2 ** (8 * sz), V.iexpr(v)))
        out.append(v)
    return tuple(out)


def _unsupported(k):
    raise Leak("struct format %s" % k)


def struct_pack(fmt, *vals):
    if not has_sym(vals):
        return struct.pack(fmt, *vals)
    order, std, f = sys.byteorder, False, fmt
    if f and f[0] in "@=<>!":
        order = {"<": "little", ">": "big", "!": "big", "=": sys.byteorder, "@": sys.byteorder}[f[0]]
        std = f[0] != "@"
        f = f[1:]
    sizes = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4 if std else 8, "L": 4 if std else 8, "q": 8, "Q": 8}
    out = []
    i = 0
    for m in re.finditer(r"(\d*)([a-zA-Z?])", f):
        for _ in range(int(m.group(1) or 1)):
            k = m.group(2)
            v = vals[i]
            i += 1
            if k in "df":
                if is_sym(v):
                    out.extend(V.SymBytes(float_bytes(v, 8 if k == "d" else 4, order)).b)
                else:
                    out.extend(struct.pack((">" if order == "big" else "<") + k, v))
                continue
            if k not in sizes:
                _unsupported(k)
            if type(v) is SymFloat:
                raise struct.error("required argument is not an integer")
            sz = sizes[k]
            lo, hi = (-(2 ** (8 * sz - 1)), 2 ** (8 * sz - 1)) if k.islower() else (0, 2 ** (8 * sz))
            if not sym_and(v >= lo, v < hi):
                raise struct.error("argument out of range")
            u = V.mkint(V.z3.If(V.iexpr(v) < 0, V.iexpr(v) + 2 ** (8 * sz), V.iexpr(v))) if is_sym(v) else v % (2 ** (8 * sz))
            if is_sym(u):
                out.extend(V.int_bytes(u, sz, order))
            else:
                out.extend(u.to_bytes(sz, order))
    return V.mkbytes(tuple(out))


FLOATBITS = []


def float_bytes(v, n, order):
    """Bytes of an IEEE value: an injective tag (fresh bytes bound to v)."""
    E = eng()
    for (vv, nn, bs) in FLOATBITS:
        if nn == n and (vv is v or V.rexpr(vv).eq(V.rexpr(v))):
            return bs if order == "big" else bs[::-1]
    bs = []
    for _ in range(n):
        b = V.z3.Int(E.uname("fbyte"))
        E.axiom(V.z3.And(b >= 0, b <= 255))
        bs.append(b)
    FLOATBITS.append((v, n, bs))
    return bs if order == "big" else bs[::-1]


override(struct.unpack, struct_unpack)
override(struct.pack, struct_pack)


# --------------------------------------------------------------------- numpy
def np_setup():
    import numpy as np

    def obj(x):
        """An object ndarray of (nested) x, not descending into proxies."""
        if isinstance(x, np.ndarray):
            return x
        if type(x) in (list, tuple, range, SymSet) and not any(is_sym(y) for y in x) and not any(
            isinstance(y, np.ndarray) and y.dtype == object for y in x
        ) and not has_sym(x, 4):
            return np.array(x)
        if type(x) in (list, tuple):
            rows = [obj(y) for y in x]
            shp = {r.shape for r in rows}
            if len(shp) > 1:
                raise ValueError("setting an array element with a sequence: inhomogeneous shape")
            s = next(iter(shp)) if shp else ()
            a = np.empty((len(rows),) + s, dtype=object)
            for i, r in enumerate(rows):
                if s == ():
                    a[i] = r.item() if isinstance(r, np.ndarray) else r
                else:
                    a[i, ...] = r
            return a
        a = np.empty((), dtype=object)
        a[()] = x
        return a

    def symarr(x):
        if isinstance(x, np.ndarray):
            return x.dtype == object
        return has_sym(x, 4)

    def np_array(x, dtype=None, **kw):
        if symarr(x):
            a = obj(x)
            return a.copy() if a is x and kw.get("copy", True) else a
        return np.array(x, dtype=dtype, **kw) if dtype is not None else np.array(x, **kw)

    def np_asarray(x, dtype=None, **kw):
        if symarr(x):
            return obj(x)
        return np.asarray(x, dtype=dtype, **kw) if dtype is not None else np.asarray(x, **kw)

    def elementwise(a, b, f):
        a, b = np.broadcast_arrays(obj(a), obj(b))
        return [f(x, y) for x, y in zip(a.ravel().tolist() if a.dtype != object else list(a.ravel()), list(b.ravel()) if b.dtype == object else b.ravel().tolist())]

    def close(x, y, rtol, atol):
        return abs(x - y) <= atol + rtol * abs(y)

    def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        if not (symarr(a) or symarr(b) or has_sym((rtol, atol))):
            return np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
        return sym_and(*elementwise(a, b, lambda x, y: close(x, y, rtol, atol)))

    def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        if not (symarr(a) or symarr(b) or has_sym((rtol, atol))):
            return np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
        if not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray) and type(a) not in (list, tuple) and type(b) not in (list, tuple):
            return close(a, b, rtol, atol)
        aa, _ = np.broadcast_arrays(obj(a), obj(b))
        r = obj(elementwise(a, b, lambda x, y: close(x, y, rtol, atol)))
        return r.reshape(aa.shape)

    def array_equal(a, b):
        if not (symarr(a) or symarr(b)):
            return np.array_equal(a, b)
        if np.shape(obj(a)) != np.shape(obj(b)):
            return False
        return sym_and(*elementwise(a, b, lambda x, y: x == y))

    def np_abs(x, *a, **k):
        if is_sym(x):
            return abs(x)
        if symarr(x):
            x = obj(x)
            r = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                r[i] = abs(x[i])
            return r
        return np.abs(x, *a, **k)

    def np_all(x, *a, **k):
        if is_sym(x):
            return x
        if symarr(x) and not a and not k:
            return sym_and(*list(obj(x).ravel()))
        return np.all(x, *a, **k)

    def np_any(x, *a, **k):
        if is_sym(x):
            return x
        if symarr(x) and not a and not k:
            return V.sym_or(*list(obj(x).ravel()))
        return np.any(x, *a, **k)

    def np_mod(x, y):
        if is_sym(x) or is_sym(y):
            return x % y
        if symarr(x) or symarr(y):
            xx = obj(x)
            r = np.empty(xx.shape, dtype=object)
            for i in np.ndindex(*xx.shape):
                r[i] = xx[i] % y
            return r
        return np.mod(x, y)

    def reduce(pyf, npf):
        def f(x, *a, **k):
            if symarr(x) and not a and not k:
                return pyf(list(obj(x).ravel()))
            return npf(x, *a, **k)

        return f

    override(np.array, np_array)
    override(np.asarray, np_asarray)
    override(np.allclose, allclose)
    override(np.isclose, isclose)
    override(np.array_equal, array_equal)
    override(np.abs, np_abs)
    override(np.all, np_all)
    override(np.any, np_any)
    override(np.mod, np_mod)
    override(np.max, reduce(lambda v: b_max(v), np.max))
    override(np.min, reduce(lambda v: b_min(v), np.min))
    override(np.sum, reduce(lambda v: b_sum(v), np.sum))
    override(np.isnan, lambda x: np.zeros(x.shape, bool) if symarr(x) and isinstance(x, np.ndarray) else (False if is_sym(x) else np.isnan(x)))
    override(np.isfinite, lambda x: np.ones(x.shape, bool) if symarr(x) and isinstance(x, np.ndarray) else (True if is_sym(x) else np.isfinite(x)))
    override(np.full_like, lambda a, v, **k: _full(a.shape, v) if is_sym(v) or symarr(a) else np.full_like(a, v, **k))
    override(np.full, lambda s, v, **k: _full(s, v) if is_sym(v) else np.full(s, v, **k))

    def _full(shape, v):
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*a.shape):
            a[i] = v
        return a

    return obj


NP = {"obj": None}


def np_setitem(o, k, v):
    import numpy as np

    if isinstance(o, np.ndarray) and o.dtype != object and (has_sym(v) or (isinstance(v, np.ndarray) and v.dtype == object)):
        raise NeedObject(o, k, v)
    if type(k) is tuple and has_sym(k):
        k = tuple(V.concretize(x) if type(x) is SymInt else x for x in k)
    elif is_sym(k):
        k = V.concretize(k)
    o[k] = v


class NeedObject(Leak):
    pass


def np_method(self, name, f, args, kwargs):
    if name in ("reshape", "transpose", "take", "repeat"):
        args = tuple(
            tuple(V.concretize(y) for y in a) if type(a) in (tuple, list) else V.concretize(a) for a in args
        )
        return f(*args, **kwargs)
    raise Leak("ndarray.%s with symbolic argument" % name)


# ---------------------------------------------------------------- exceptions
def sx_except():
    e = sys.exc_info()[1]
    check_leak(e)


def check_leak(e):
    """An exception handler of the program must not swallow engine signals."""
    if isinstance(e, SymxControl):
        raise e
    if isinstance(e, (TypeError, AttributeError, NotImplementedError)):
        txt = Exception.__str__(e) if not any(has_sym(a) for a in e.args) else ""
        if any(n in txt for n in ("SymInt", "SymFloat", "SymStr", "SymBool", "SymBytes", "LazyStr", "SymJson", "SymSet", "SymMatch", "SymHash")):
            raise Leak("proxy reached unsupported code: %s" % txt)


def sx_enter(q):
    from . import core

    if core.ENG is not None:
        core.ENG.entered.add(q)


NAMESPACE = {
    "__sx_call__": sx_call,
    "__sx_getitem__": sx_getitem,
    "__sx_setitem_v__": sx_setitem_v,
    "__sx_augitem__": sx_augitem,
    "__sx_delitem__": sx_delitem,
    "__sx_chain__": sx_chain,
    "__sx_in__": sx_in,
    "__sx_not_in__": sx_not_in,
    "__sx_is__": sx_is,
    "__sx_is_not__": sx_is_not,
    "__sx_fstr__": sx_fstr,
    "__sx_mod__": sx_mod,
    "__sx_dict__": sx_dict,
    "__sx_set__": sx_set,
    "__sx_star__": STAR,
    "__sx_except__": sx_except,
    "__sx_enter__": sx_enter,
}


# logging is never the subject: handlers of the code under test get no-ops
def _log(self, *a, **k):
    return None


for _n in ("debug", "info", "warning", "error", "exception", "critical", "log", "warn"):
    override_func(getattr(logging.Logger, _n), _log)

import warnings  # noqa: E402

override(warnings.warn, lambda *a, **k: None)
