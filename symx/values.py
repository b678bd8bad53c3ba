"""Symbolic proxy values."""
import fractions

from .core import z3, eng, Leak, Inconclusive

U = fractions.Fraction(1, 2**53)


def is_sym(x):
    return isinstance_raw(x, Sym)


def isinstance_raw(x, cls):
    return issubclass(type(x), cls)


class Sym:
    __slots__ = ()
    __array_ufunc__ = None

    def _leak(self, what):
        raise Leak("symbolic %s reached %s" % (type(self).__name__, what))

    def __hash__(self):
        if HASHOK[0]:
            return id(self)
        self._leak("hash()")

    def __str__(self):
        self._leak("str()")

    def __repr__(self):
        return "<%s>" % type(self).__name__

    def __format__(self, spec):
        self._leak("format()")

    def __reduce__(self):
        self._leak("pickle/copy")

    def __reduce_ex__(self, p):
        self._leak("pickle/copy")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


HASHOK = [False]


def rv(x):
    """z3 real literal of a Python number, exactly."""
    f = fractions.Fraction(x)
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator))


def finite(x):
    return not (isinstance_raw(x, float) and (x != x or x in (float("inf"), float("-inf"))))


# ---------------------------------------------------------------------- bool
class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return eng().branch(self.e)

    def __eq__(self, o):
        if isinstance_raw(o, SymBool):
            return SymBool(self.e == o.e)
        if isinstance_raw(o, bool):
            return self if o else SymBool(z3.Not(self.e))
        if isinstance_raw(o, (int, float)) or is_num(o):
            return self._int() == o
        return False

    def __ne__(self, o):
        return sym_not(self.__eq__(o))

    __hash__ = Sym.__hash__

    def _int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __and__(self, o):
        if isinstance_raw(o, (bool, SymBool)):
            return mkbool(z3.And(self.e, bexpr(o)))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance_raw(o, (bool, SymBool)):
            return mkbool(z3.Or(self.e, bexpr(o)))
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, bexpr(o)))

    __rxor__ = __xor__

    def __add__(self, o):
        return self._int() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._int() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._int() - o

    def __rsub__(self, o):
        return o - self._int()

    def __lt__(self, o):
        return self._int() < o

    def __gt__(self, o):
        return self._int() > o

    def __le__(self, o):
        return self._int() <= o

    def __ge__(self, o):
        return self._int() >= o

    def __int__(self):
        return 1 if bool(self) else 0

    __index__ = __int__

    def item(self):
        return self

    def all(self, *a):
        return self

    def any(self, *a):
        return self


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def bexpr(x):
    if isinstance_raw(x, SymBool):
        return x.e
    if isinstance_raw(x, z3.ExprRef):
        return x
    return z3.BoolVal(bool(x))


def sym_not(x):
    if isinstance_raw(x, SymBool):
        return mkbool(z3.Not(x.e))
    if x is NotImplemented:
        return x
    return not x


def sym_and(*xs):
    es = []
    for x in xs:
        if isinstance_raw(x, SymBool):
            es.append(x.e)
        elif isinstance_raw(x, z3.ExprRef):
            es.append(x)
        elif not x:
            return False
    if not es:
        return True
    return mkbool(z3.And(*es))


def sym_or(*xs):
    es = []
    for x in xs:
        if isinstance_raw(x, SymBool):
            es.append(x.e)
        elif isinstance_raw(x, z3.ExprRef):
            es.append(x)
        elif x:
            return True
    if not es:
        return False
    return mkbool(z3.Or(*es))


def sym_ite(c, a, b):
    if not isinstance_raw(c, SymBool):
        return a if c else b
    if is_num(a) and is_num(b):
        if is_intlike(a) and is_intlike(b):
            return SymInt(z3.If(c.e, iexpr(a), iexpr(b)))
        return SymFloat(z3.If(c.e, rexpr(a), rexpr(b)))
    return a if c else b


# ------------------------------------------------------------------- numbers
def is_num(x):
    return isinstance_raw(x, (int, float, SymInt, SymFloat, SymBool)) or _np_num(x)


def _np_num(x):
    return type(x).__module__ == "numpy" and hasattr(type(x), "dtype") and getattr(x, "ndim", 1) == 0


def is_intlike(x):
    if _np_num(x):
        return x.dtype.kind in "iub"
    return isinstance_raw(x, (int, SymInt, SymBool))


def iexpr(x):
    if isinstance_raw(x, SymInt):
        return x.e
    if isinstance_raw(x, SymBool):
        return x._int().e
    return z3.IntVal(int(x))


def rexpr(x):
    if isinstance_raw(x, SymFloat):
        return x.e
    if isinstance_raw(x, SymInt):
        return z3.ToReal(x.e)
    if isinstance_raw(x, SymBool):
        return z3.ToReal(x._int().e)
    if _np_num(x):
        x = x.item()
    if not finite(x):
        raise Leak("inf/nan constant in symbolic arithmetic")
    return rv(x)


def _concrete(e):
    if z3.is_int_value(e):
        return e.as_long()
    return None


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def _cmp(op):
    def f(self, o):
        if not is_num(o):
            return NotImplemented
        if isinstance_raw(o, float) and not finite(o):
            if o != o:
                return op == "ne"
            big = o > 0
            return {"lt": big, "le": big, "gt": not big, "ge": not big, "eq": False, "ne": True}[op]
        if is_intlike(self) and is_intlike(o):
            a, b = iexpr(self), iexpr(o)
        else:
            a, b = rexpr(self), rexpr(o)
        return mkbool(
            {
                "lt": lambda: a < b,
                "le": lambda: a <= b,
                "gt": lambda: a > b,
                "ge": lambda: a >= b,
                "eq": lambda: a == b,
                "ne": lambda: a != b,
            }[op]()
        )

    return f


class SymNum(Sym):
    __slots__ = ()
    __lt__ = _cmp("lt")
    __le__ = _cmp("le")
    __gt__ = _cmp("gt")
    __ge__ = _cmp("ge")

    def __bool__(self):
        return bool(self != 0)

    def __pos__(self):
        return self

    @property
    def real(self):
        return self

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()


class SymInt(SymNum):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return int

    __hash__ = Sym.__hash__

    def __eq__(self, o):
        if not is_num(o):
            return False
        return _cmp("eq")(self, o)

    def __ne__(self, o):
        if not is_num(o):
            return True
        return _cmp("ne")(self, o)

    def _bin(self, o, fi, ff):
        if not is_num(o):
            return NotImplemented
        if is_intlike(o):
            return mkint(fi(self.e, iexpr(o)))
        return ff(SymFloat(z3.ToReal(self.e)), o)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance_raw(o, (str, list, tuple, SymStr)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not is_num(o):
            return NotImplemented
        return SymFloat(z3.ToReal(self.e)) / o

    def __rtruediv__(self, o):
        if not is_num(o):
            return NotImplemented
        return _tofloat(o) / SymFloat(z3.ToReal(self.e))

    def __floordiv__(self, o):
        if not is_num(o):
            return NotImplemented
        if not is_intlike(o):
            return SymFloat(z3.ToReal(self.e)) // o
        return _ifloordiv(self, o)

    def __rfloordiv__(self, o):
        return _ifloordiv(o, self)

    def __mod__(self, o):
        if not is_num(o):
            return NotImplemented
        if not is_intlike(o):
            return SymFloat(z3.ToReal(self.e)) % o
        return mkint(iexpr(self) - iexpr(o) * iexpr(_ifloordiv(self, o)))

    def __rmod__(self, o):
        if not is_num(o):
            return NotImplemented
        return mkint(iexpr(o) - iexpr(self) * iexpr(_ifloordiv(o, self)))

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if isinstance_raw(o, int) and 0 <= o < 5:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        self._leak("**")

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rlshift__(self, o):
        return o * (2 ** self.__index__())

    def __rshift__(self, o):
        return self // (1 << int(o))

    def _bits(self, o, fn):
        bits = 64
        if not is_intlike(o):
            return NotImplemented
        a = z3.Int2BV(self.e, bits)
        b = z3.Int2BV(iexpr(o), bits)
        return SymInt(z3.BV2Int(fn(a, b)))

    def __and__(self, o):
        return self._bits(o, lambda a, b: a & b)

    __rand__ = __and__

    def __or__(self, o):
        return self._bits(o, lambda a, b: a | b)

    __ror__ = __or__

    def __neg__(self):
        return mkint(-self.e)

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def is_integer(self):
        return True

    def bit_length(self):
        self._leak("bit_length")

    def __index__(self):
        """Concretise by forking over every feasible value (bounded)."""
        return concretize(self)

    def __int__(self):
        return concretize(self)

    def __float__(self):
        self._leak("float()")

    def to_bytes(self, length, byteorder="big", signed=False):
        return SymBytes(int_bytes(self, length, byteorder))


def _ifloordiv(a, b):
    ea, eb = iexpr(a), iexpr(b)
    if bool(SymBool(eb == 0)) if not z3.is_int_value(eb) else eb.as_long() == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    # z3: Euclidean division; Python: floor
    q = ea / eb
    r = ea % eb  # 0 <= r < |b|
    return mkint(z3.If(z3.Or(eb > 0, r == 0), q, q - 1))


MAXCONC = [72]


def concretize(v):
    if not is_sym(v):
        return int(v)
    E = eng()
    e = z3.simplify(v.e)
    if z3.is_int_value(e):
        return e.as_long()
    E.concretizations += 1
    for _ in range(MAXCONC[0]):
        k = E.pick(e)
        if E.branch(e == k):
            return k
    raise Inconclusive("more than %d values while concretising an integer" % MAXCONC[0])


BYTESOF = {}  # integers made of bytes (so that packing them again gives the same bytes)


def int_bytes(v, n, byteorder="big"):
    """bytes of an int known to be in [0, 256**n)."""
    E = eng()
    e = iexpr(v)
    for x, m, bs in BYTESOF.get(e.get_id(), ()):
        if m == n and x.eq(e):
            return list(bs) if byteorder == "big" else list(bs)[::-1]
    bs = []
    tot = z3.IntVal(0)
    for i in range(n):
        b = z3.Int(E.uname("byte"))
        E.axiom(z3.And(b >= 0, b <= 255))
        bs.append(b)
        tot = tot + b * (256**i)
    E.axiom(tot == iexpr(v))
    if byteorder == "big":
        bs = bs[::-1]
    return bs


def _tofloat(x):
    if isinstance_raw(x, SymFloat):
        return x
    return SymFloat(rexpr(x))


def _bnd(x):
    if type(x) is SymFloat:
        return x.b
    if is_sym(x):
        return None
    return abs(float(x))


def _badd(a, b):
    a, b = _bnd(a), _bnd(b)
    return None if a is None or b is None else (a + b) * (1 + 2.0**-50)


def _bmul(a, b):
    a, b = _bnd(a), _bnd(b)
    return None if a is None or b is None else a * b * (1 + 2.0**-50)


def _pow2(x):
    """True when multiplying by the constant x is exact in binary floating point."""
    f = abs(fractions.Fraction(x))
    if f == 0:
        return True
    n, d = f.numerator, f.denominator
    return (n & (n - 1)) == 0 and (d & (d - 1)) == 0


class SymFloat(SymNum):
    """IEEE double, modelled as a real plus a bounded rounding error per operation."""

    __slots__ = ("e", "b")

    def __init__(self, e, b=None):
        self.e = e
        self.b = b  # a bound on the magnitude, when known

    @property
    def __class__(self):
        return float

    __hash__ = Sym.__hash__

    def __eq__(self, o):
        if not is_num(o):
            return False
        return _cmp("eq")(self, o)

    def __ne__(self, o):
        if not is_num(o):
            return True
        return _cmp("ne")(self, o)

    def _round(self, exact, b=None):
        E = eng()
        if E.fp != "slack":
            return SymFloat(z3.simplify(exact), b)
        # the same operation on the same operands rounds the same way
        key = exact.get_id()
        hit = E.round_cache.get(key)
        if hit is None:
            raw = exact
            exact = z3.simplify(exact)
            if z3.is_rational_value(exact):
                hit = (raw, SymFloat(exact, b), None, None)
            else:
                err = z3.Real("fperr!%d" % len(E.round_cache))
                r = exact + err
                # (rounding preserves the sign, so zero is exact)
                sign = z3.And(z3.Implies(exact >= 0, r >= 0), z3.Implies(exact <= 0, r <= 0))
                if b is not None and b > 0:
                    # |err| <= 2^-53 * bound: coarser than the exact per-value error, and linear
                    m = rv(float(b)) * rv(U)
                    v = SymFloat(r, b * (1 + 2.0**-50))
                else:
                    m = z3.If(exact >= 0, exact, -exact) * rv(U)
                    v = SymFloat(r)
                hit = (raw, v, z3.simplify(z3.And(err <= m, err >= -m, sign)), err)
            E.round_cache[key] = hit
        if hit[2] is not None:
            E.err_vars.append(hit[3])
            E.axiom(hit[2])
        return hit[1]

    def __add__(self, o):
        if not is_num(o):
            return NotImplemented
        if not is_sym(o) and o == 0:
            return self
        return self._round(self.e + rexpr(o), _badd(self, o))

    __radd__ = __add__

    def __sub__(self, o):
        if not is_num(o):
            return NotImplemented
        if not is_sym(o) and o == 0:
            return self
        return self._round(self.e - rexpr(o), _badd(self, o))

    def __rsub__(self, o):
        if not is_num(o):
            return NotImplemented
        if not is_sym(o) and o == 0:
            return -self
        return self._round(rexpr(o) - self.e, _badd(self, o))

    def __mul__(self, o):
        if not is_num(o):
            return NotImplemented
        if not is_sym(o) and _pow2(o):
            return SymFloat(z3.simplify(self.e * rexpr(o)), _bmul(self, o))
        return self._round(self.e * rexpr(o), _bmul(self, o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not is_num(o):
            return NotImplemented
        if not is_sym(o):
            if o == 0:
                raise ZeroDivisionError("float division by zero")
            if _pow2(o):
                return SymFloat(z3.simplify(self.e / rexpr(o)))
        elif o == 0:
            raise ZeroDivisionError("float division by zero")
        return self._round(self.e / rexpr(o))

    def __rtruediv__(self, o):
        if not is_num(o):
            return NotImplemented
        if self == 0:
            raise ZeroDivisionError("float division by zero")
        return self._round(rexpr(o) / self.e)

    def __floordiv__(self, o):
        if not is_num(o):
            return NotImplemented
        q = self / o
        return SymFloat(z3.ToReal(z3.ToInt(_tofloat(q).e)))

    def __rfloordiv__(self, o):
        return SymFloat(z3.ToReal(z3.ToInt((_tofloat(o) / self).e)))

    def __mod__(self, o):
        """Python float modulo: exact fmod, then one rounded addition."""
        if not is_num(o):
            return NotImplemented
        return _fmod(self, o)

    def __rmod__(self, o):
        return _fmod(_tofloat(o), self)

    def __divmod__(self, o):
        r = self % o
        return SymFloat(z3.ToReal(z3.ToInt(self.e / rexpr(o)))), r

    def __pow__(self, o):
        if isinstance_raw(o, int) and 0 < o < 4:
            r = self
            for _ in range(o - 1):
                r = r * self
            return r
        self._leak("**")

    def __neg__(self):
        return SymFloat(-self.e, self.b)

    def __abs__(self):
        return SymFloat(z3.simplify(z3.If(self.e >= 0, self.e, -self.e)), self.b)

    def __round__(self, n=None):
        scale = 10 ** (n or 0)
        x = self.e * scale if n else self.e
        fl = z3.ToInt(x)
        frac = x - z3.ToReal(fl)
        half = rv(0.5)
        r = z3.If(
            frac < half,
            fl,
            z3.If(frac > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)),
        )
        if n is None:
            return SymInt(r)
        return SymFloat(z3.ToReal(r) / scale)

    def __trunc__(self):
        return SymInt(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def __floor__(self):
        return SymInt(z3.ToInt(self.e))

    def __ceil__(self):
        return SymInt(-z3.ToInt(-self.e))

    def __int__(self):
        self._leak("int()")

    def __float__(self):
        self._leak("float()")

    def is_integer(self):
        return mkbool(z3.IsInt(self.e))

    def item(self):
        return self


def _fmod(a, b):
    eb = rexpr(b)
    if not is_sym(b):
        if b == 0:
            raise ZeroDivisionError("float modulo")
    elif b == 0:
        raise ZeroDivisionError("float modulo")
    E = eng()
    k = z3.Int(E.uname("fmodk"))
    ea = a.e
    m = ea - z3.ToReal(k) * eb  # remainder with the sign of a, exact
    aeb = z3.If(eb >= 0, eb, -eb)
    E.axiom(z3.And(z3.If(ea >= 0, z3.And(m >= 0, m < aeb), z3.And(m <= 0, m > -aeb))))
    res = SymFloat(m)
    if res == 0:
        return SymFloat(rv(0))
    if sym_not((res < 0) == (SymFloat(eb) < 0)):
        return res + b
    return res


# ------------------------------------------------------------------- strings
def _cexpr(c):
    return z3.IntVal(ord(c)) if isinstance_raw(c, str) else c


def char_eq(a, b):
    if isinstance_raw(a, str) and isinstance_raw(b, str):
        return z3.BoolVal(a == b)
    return _cexpr(a) == _cexpr(b)


def char_in_range(c, lo, hi):
    if isinstance_raw(c, str):
        return z3.BoolVal(lo <= ord(c) <= hi)
    return z3.And(c >= lo, c <= hi)


def char_lower(c):
    if isinstance_raw(c, str):
        return c.lower()
    return z3.simplify(z3.If(z3.And(c >= 65, c <= 90), c + 32, c))


def char_upper(c):
    if isinstance_raw(c, str):
        return c.upper()
    return z3.simplify(z3.If(z3.And(c >= 97, c <= 122), c - 32, c))


def char_is_digit(c):
    return char_in_range(c, 48, 57)


def char_is_space(c):
    if isinstance_raw(c, str):
        return z3.BoolVal(c.isspace())
    return z3.Or(c == 32, z3.And(c >= 9, c <= 13), z3.And(c >= 28, c <= 31))


def char_is_alpha(c):
    return z3.Or(char_in_range(c, 65, 90), char_in_range(c, 97, 122))


def _norm(chars):
    out = []
    for c in chars:
        if not isinstance_raw(c, str):
            c = z3.simplify(c)
            if z3.is_int_value(c):
                c = chr(c.as_long())
        out.append(c)
    return tuple(out)


def mkstr(chars):
    chars = _norm(chars)
    if all(isinstance_raw(c, str) for c in chars):
        return "".join(chars)
    return SymStr(chars)


class SymStr(Sym):
    """ASCII string of concrete length with symbolic characters."""

    __slots__ = ("_c",)

    def __init__(self, chars):
        self._c = chars

    @property
    def chars(self):
        return self._c

    @property
    def __class__(self):
        return str

    __hash__ = Sym.__hash__

    def __len__(self):
        return len(self.chars)

    def __bool__(self):
        return len(self.chars) > 0

    def __iter__(self):
        for c in self.chars:
            yield mkstr((c,))

    def __getitem__(self, i):
        if isinstance_raw(i, slice):
            i = slice(*[None if x is None else concretize(x) for x in (i.start, i.stop, i.step)])
            return mkstr(self.chars[i])
        return mkstr((self.chars[concretize(i)],))

    def __eq__(self, o):
        if not is_strlike(o):
            return False
        return str_eq(self, o)

    def __ne__(self, o):
        return sym_not(self.__eq__(o))

    def __lt__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return str_lt(self, o)

    def __gt__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return str_lt(o, self)

    def __le__(self, o):
        return sym_not(self.__gt__(o))

    def __ge__(self, o):
        return sym_not(self.__lt__(o))

    def __add__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return mkstr(self.chars + schars(o))

    def __radd__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return mkstr(schars(o) + self.chars)

    def __mul__(self, n):
        return mkstr(self.chars * concretize(n))

    def __contains__(self, o):
        return bool(self._contains(o))

    def _contains(self, o):
        oc = schars(o)
        n, m = len(self.chars), len(oc)
        return sym_or(*[self._at(oc, i) for i in range(n - m + 1)])

    def _at(self, oc, i):
        return mkbool(z3.And(*[char_eq(a, b) for a, b in zip(self.chars[i : i + len(oc)], oc)])) if oc else True

    def startswith(self, p, start=0, end=None):
        if isinstance_raw(p, tuple):
            return sym_or(*[self.startswith(x) for x in p])
        s = self if start == 0 and end is None else SymStr(self.chars[start:end])
        oc = schars(p)
        if len(oc) > len(s.chars):
            return False
        return s._at(oc, 0)

    def endswith(self, p):
        if isinstance_raw(p, tuple):
            return sym_or(*[self.endswith(x) for x in p])
        oc = schars(p)
        if len(oc) > len(self.chars):
            return False
        return self._at(oc, len(self.chars) - len(oc))

    def find(self, p, start=0, end=None):
        oc = schars(p)
        n = len(self.chars) if end is None else min(end, len(self.chars))
        for i in range(start, n - len(oc) + 1):
            if self._at(oc, i):
                return i
        return -1

    def rfind(self, p):
        oc = schars(p)
        for i in range(len(self.chars) - len(oc), -1, -1):
            if self._at(oc, i):
                return i
        return -1

    def index(self, p):
        i = self.find(p)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, p):
        i = self.rfind(p)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, p):
        oc = schars(p)
        i = n = 0
        while i + len(oc) <= len(self.chars):
            if self._at(oc, i):
                n += 1
                i += max(1, len(oc))
            else:
                i += 1
        return n

    def lower(self):
        return mkstr(tuple(char_lower(c) for c in self.chars))

    casefold = lower

    def upper(self):
        return mkstr(tuple(char_upper(c) for c in self.chars))

    def capitalize(self):
        c = self.chars
        return mkstr(tuple([char_upper(c[0])] + [char_lower(x) for x in c[1:]]) if c else c)

    title = capitalize

    def swapcase(self):
        self._leak("swapcase")

    def _strip(self, chars, left, right):
        cs = list(self.chars)

        def pred(c):
            if chars is None:
                return mkbool(char_is_space(c))
            return mkbool(z3.Or(*[char_eq(c, x) for x in schars(chars)]))

        if left:
            while cs and pred(cs[0]):
                cs.pop(0)
        if right:
            while cs and pred(cs[-1]):
                cs.pop()
        return mkstr(tuple(cs))

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[: len(self) - len(p)] if len(p) and self.endswith(p) else self

    def replace(self, a, b, count=-1):
        ac, bc = schars(a), schars(b)
        if not ac:
            self._leak("replace('')")
        out = []
        i = 0
        while i < len(self.chars):
            if count != 0 and i + len(ac) <= len(self.chars) and self._at(ac, i):
                out.extend(bc)
                i += len(ac)
                count -= 1
            else:
                out.append(self.chars[i])
                i += 1
        return mkstr(tuple(out))

    def split(self, sep=None, maxsplit=-1):
        cs = self.chars
        out = []
        if sep is None:
            cur = None
            i = 0
            while i < len(cs):
                if mkbool(char_is_space(cs[i])):
                    if cur is not None:
                        out.append(mkstr(tuple(cur)))
                        cur = None
                        if maxsplit >= 0 and len(out) >= maxsplit:
                            rest = mkstr(cs[i:])
                            rest = rest.strip() if len(rest) else rest
                            if len(rest):
                                out.append(rest)
                            return out
                else:
                    cur = (cur or []) + [cs[i]]
                i += 1
            if cur is not None:
                out.append(mkstr(tuple(cur)))
            return out
        oc = schars(sep)
        cur = []
        i = 0
        while i < len(cs):
            if (maxsplit < 0 or len(out) < maxsplit) and i + len(oc) <= len(cs) and self._at(oc, i):
                out.append(mkstr(tuple(cur)))
                cur = []
                i += len(oc)
            else:
                cur.append(cs[i])
                i += 1
        out.append(mkstr(tuple(cur)))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if maxsplit == 1 and sep is not None:
            i = self.rfind(sep)
            return [self] if i < 0 else [self[:i], self[i + len(sep):]]
        self._leak("rsplit")

    def splitlines(self, keepends=False):
        self._leak("splitlines")

    def partition(self, sep):
        i = self.find(sep)
        return (self, "", "") if i < 0 else (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        return ("", "", self) if i < 0 else (self[:i], sep, self[i + len(sep):])

    def _all(self, pred):
        if not self.chars:
            return False
        return mkbool(z3.And(*[pred(c) for c in self.chars]))

    def isdigit(self):
        return self._all(char_is_digit)

    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return self._all(char_is_alpha)

    def isalnum(self):
        return self._all(lambda c: z3.Or(char_is_alpha(c), char_is_digit(c)))

    def isspace(self):
        return self._all(char_is_space)

    def isascii(self):
        return True

    def islower(self):
        up = z3.Or(*[char_in_range(c, 65, 90) for c in self.chars])
        lo = z3.Or(*[char_in_range(c, 97, 122) for c in self.chars])
        return mkbool(z3.And(z3.Not(up), lo))

    def isupper(self):
        up = z3.Or(*[char_in_range(c, 65, 90) for c in self.chars])
        lo = z3.Or(*[char_in_range(c, 97, 122) for c in self.chars])
        return mkbool(z3.And(z3.Not(lo), up))

    def join(self, items):
        return str_join(self, items)

    def encode(self, *a):
        return SymBytes(tuple(ord(c) if isinstance_raw(c, str) else c for c in self.chars))

    def format(self, *a, **k):
        self._leak("format template")

    def zfill(self, w):
        return mkstr(tuple("0" * max(0, w - len(self))) + self.chars)

    def ljust(self, w, f=" "):
        return mkstr(self.chars + tuple(f * max(0, w - len(self))))

    def rjust(self, w, f=" "):
        return mkstr(tuple(f * max(0, w - len(self))) + self.chars)

    def translate(self, t):
        self._leak("translate")

    def expanduser(self):
        self._leak("expanduser")


def is_strlike(x):
    return isinstance_raw(x, (str, SymStr))


def schars(x):
    if isinstance_raw(x, SymStr):
        return tuple(x.chars)
    if isinstance_raw(x, str):
        return tuple(x)
    raise TypeError("expected str, got %s" % type(x).__name__)


def str_eq(a, b):
    if isinstance_raw(a, LazyStr) or isinstance_raw(b, LazyStr):
        r = lazy_eq(a, b)
        if r is not None:
            return r
    ac, bc = schars(a), schars(b)
    if len(ac) != len(bc):
        return False
    if not ac:
        return True
    return mkbool(z3.And(*[char_eq(x, y) for x, y in zip(ac, bc)]))


def str_lt(a, b):
    ac, bc = schars(a), schars(b)
    r = z3.BoolVal(len(ac) < len(bc))
    for x, y in reversed(list(zip(ac, bc))):
        r = z3.Or(_cexpr(x) < _cexpr(y), z3.And(char_eq(x, y), r))
    return mkbool(r)


def str_join(sep, items):
    sc = schars(sep)
    out = []
    for i, it in enumerate(items):
        if i:
            out.extend(sc)
        out.extend(schars(it))
    return mkstr(tuple(out))


class LazyStr(SymStr):
    """Text built from symbolic parts; expanded only when its characters matter."""

    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts
        self._c = None

    @property
    def chars(self):
        if self._c is None:
            out = []
            for p in self.parts:
                out.extend(schars(to_text(p)))
            self._c = _norm(out)
        return self._c


    def _isfloat(self):
        return any(isinstance_raw(p, NumText) and isinstance_raw(p.v, (SymFloat, float)) for p in self.parts)

    def __add__(self, o):
        if is_strlike(o) and (self._isfloat() or isinstance_raw(o, LazyStr)):
            return mklazy([self, o])
        return SymStr.__add__(self, o)

    def __radd__(self, o):
        if is_strlike(o) and (self._isfloat() or isinstance_raw(o, LazyStr)):
            return mklazy([o, self])
        return SymStr.__radd__(self, o)

    def encode(self, *a, **k):
        return LazyBytes(self) if self._isfloat() else SymStr.encode(self, *a, **k)


class LazyBytes(Sym):
    """Encoded text with symbolic floats in it: only good for comparing (digests)."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bytes

    __hash__ = Sym.__hash__

    def __eq__(self, o):
        if isinstance_raw(o, LazyBytes):
            return text_eq(self.t, o.t)
        if isinstance_raw(o, bytes):
            return text_eq(self.t, o.decode())
        raise Leak("comparing the text of a symbolic float")

    def __ne__(self, o):
        return sym_not(self.__eq__(o))

    def __len__(self):
        raise Leak("length of the text of a symbolic float")

    __iter__ = __getitem__ = __add__ = __len__


NUMCHARS = frozenset("0123456789.+-e")


def text_tokens(t):
    """[(is number, text or NumText)]: numbers are separated by other text."""
    out = []
    for p in lazy_parts(t):
        if isinstance_raw(p, NumText):
            if out and out[-1][0]:
                raise Leak("text of a symbolic number next to another number")
            out.append((True, p))
        elif isinstance_raw(p, str):
            for c in p:
                k = c in NUMCHARS
                if out and out[-1][0] == k and isinstance_raw(out[-1][1], NumText):
                    raise Leak("text of a symbolic number next to another number")
                if out and out[-1][0] == k:
                    out[-1] = (k, out[-1][1] + c)
                else:
                    out.append((k, c))
        else:
            raise Leak("comparing mixed symbolic text")
    return out


def text_eq(a, b):
    ta, tb = text_tokens(a), text_tokens(b)
    if len(ta) != len(tb):
        return False
    cs = []
    for (k, x), (q, y) in zip(ta, tb):
        if k != q:
            return False
        if isinstance_raw(x, str) and isinstance_raw(y, str):
            if x != y:
                return False
            continue
        c = lazy_eq(LazyStr((x,)) if isinstance_raw(x, NumText) else x, LazyStr((y,)) if isinstance_raw(y, NumText) else y)
        if c is None:
            raise Leak("comparing mixed symbolic text")
        cs.append(c)
    return sym_and(*cs)


class NumText:
    """A lazily rendered number inside a LazyStr."""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


def lazy_parts(x):
    if isinstance_raw(x, LazyStr):
        return x.parts
    return (x,)


def lazy_eq(a, b):
    """Equality of rendered numbers without expanding digits (None: unknown)."""
    pa, pb = lazy_parts(a), lazy_parts(b)
    if len(pa) == 1 and len(pb) == 1:
        x, y = pa[0], pb[0]
        if isinstance_raw(x, NumText) and isinstance_raw(y, NumText):
            fx = isinstance_raw(x.v, SymFloat) or isinstance_raw(x.v, float)
            fy = isinstance_raw(y.v, SymFloat) or isinstance_raw(y.v, float)
            if fx != fy:
                return False
            return x.v == y.v
        if isinstance_raw(y, NumText):
            x, y = y, x
        if isinstance_raw(x, NumText) and isinstance_raw(y, str):
            isf = isinstance_raw(x.v, SymFloat)
            try:
                c = float(y) if isf else int(y)
            except ValueError:
                return False
            if str(c) != y:
                return False
            return x.v == c
    return None


MAXDIGITS = [6]


def int_text(v):
    """Decimal rendering of a symbolic integer (number of digits forked, bounded)."""
    if not is_sym(v):
        return str(v)
    E = eng()
    neg = bool(v < 0)
    a = -v if neg else v
    n = None
    for k in range(1, MAXDIGITS[0] + 1):
        if a < 10**k:
            n = k
            break
    if n is None:
        raise Inconclusive("integer text longer than %d digits" % MAXDIGITS[0])
    if not is_sym(a):
        return str(-a if neg else a)
    ds = []
    tot = z3.IntVal(0)
    for i in range(n):
        d = z3.Int(E.uname("digit"))
        E.axiom(z3.And(d >= 48, d <= 57))
        ds.append(d)
        tot = tot * 10 + (d - 48)
    E.axiom(tot == a.e)
    return mkstr((("-",) if neg else ()) + tuple(ds))


def to_text(p):
    if is_strlike(p):
        return p
    if isinstance_raw(p, NumText):
        v = p.v
        if isinstance_raw(v, SymBool):
            return "True" if v else "False"
        if isinstance_raw(v, SymInt):
            return int_text(v)
        if isinstance_raw(v, (int, float)):
            return str(v)
        raise Leak("text of a symbolic float")
    raise Leak("text of %r" % (type(p),))


def mklazy(parts):
    flat = []
    for p in parts:
        if isinstance_raw(p, LazyStr):
            flat.extend(p.parts)
        elif isinstance_raw(p, str) and flat and isinstance_raw(flat[-1], str):
            flat[-1] = flat[-1] + p
        elif isinstance_raw(p, str) and p == "":
            continue
        else:
            flat.append(p)
    if all(isinstance_raw(p, str) for p in flat):
        return "".join(flat)
    if all(is_strlike(p) and not isinstance_raw(p, LazyStr) for p in flat):
        out = ()
        for p in flat:
            out += schars(p)
        return mkstr(out)
    return LazyStr(tuple(flat))


def str_to_int(s, base=10):
    """int(str) semantics for ASCII."""
    cs = list(s.strip().chars) if is_sym(s.strip()) else list(s.strip())
    if base not in (10,):
        raise Leak("int(str, base)")
    neg = False
    if cs:
        if mkbool(char_eq(cs[0], "-")):
            neg = True
            cs = cs[1:]
        elif mkbool(char_eq(cs[0], "+")):
            cs = cs[1:]
    if not cs:
        raise ValueError("invalid literal for int() with base 10")
    tot = z3.IntVal(0)
    prev_us = True
    for c in cs:
        if mkbool(char_is_digit(c)):
            tot = tot * 10 + (_cexpr(c) - 48)
            prev_us = False
        elif mkbool(char_eq(c, "_")) and not prev_us:
            prev_us = True
        else:
            raise ValueError("invalid literal for int() with base 10")
    if prev_us:
        raise ValueError("invalid literal for int() with base 10")
    r = mkint(-tot if neg else tot)
    return r


# --------------------------------------------------------------------- bytes
class SymBytes(Sym):
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = tuple(b)

    @property
    def __class__(self):
        return bytes

    __hash__ = Sym.__hash__

    def __len__(self):
        return len(self.b)

    def __bool__(self):
        return len(self.b) > 0

    def __iter__(self):
        for x in self.b:
            yield byteval(x)

    def __getitem__(self, i):
        if isinstance_raw(i, slice):
            i = slice(*[None if x is None else concretize(x) for x in (i.start, i.stop, i.step)])
            return mkbytes(self.b[i])
        return byteval(self.b[concretize(i)])

    def __eq__(self, o):
        if isinstance_raw(o, (bytes, bytearray)):
            ob = tuple(o)
        elif isinstance_raw(o, SymBytes):
            ob = o.b
        else:
            return False
        if len(ob) != len(self.b):
            return False
        return mkbool(z3.And(*[bytexpr(x) == bytexpr(y) for x, y in zip(self.b, ob)])) if ob else True

    def __ne__(self, o):
        return sym_not(self.__eq__(o))

    def __add__(self, o):
        return mkbytes(self.b + (o.b if isinstance_raw(o, SymBytes) else tuple(o)))

    def __radd__(self, o):
        return mkbytes((o.b if isinstance_raw(o, SymBytes) else tuple(o)) + self.b)

    def decode(self, *a, **k):
        return mkstr(tuple(chr(x) if isinstance_raw(x, int) else x for x in self.b))

    def startswith(self, p):
        return self[: len(p)] == p

    def hex(self):
        self._leak("hex")


def bytexpr(x):
    return z3.IntVal(x) if isinstance_raw(x, int) else x


def byteval(x):
    return x if isinstance_raw(x, int) else SymInt(x)


def mkbytes(bs):
    if all(isinstance_raw(x, int) for x in bs):
        return bytes(bs)
    return SymBytes(bs)


def bytes_to_uint(bs, order="big"):
    bs = list(bs)
    if order == "little":
        bs = bs[::-1]
    tot = z3.IntVal(0)
    for b in bs:
        tot = tot * 256 + bytexpr(b)
    r = mkint(tot)
    if isinstance_raw(r, SymInt):
        BYTESOF.setdefault(r.e.get_id(), []).append((r.e, len(bs), tuple(bs)))
    return r
