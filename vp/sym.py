"""Symbolic values.  None of them subclasses the type it stands for, so C code can never silently use a wrong value;
``__class__`` reports the type it stands for, so ``isinstance`` and class patterns work."""
import math
import collections.abc

from . import engine
from .engine import z3, PathIncomplete

_true = z3.BoolVal(True)
_false = z3.BoolVal(False)


def E():
    return engine.ENG


# --------------------------------------------------------------------------------------------------------------------
# helpers


def is_sym(x):
    return type(x) in SYM_TYPES


def deep_sym(x, depth=6):
    t = type(x)
    if t in SYM_TYPES:
        return True
    if depth and (t is list or t is tuple or t is set or t is frozenset):
        return any(deep_sym(y, depth - 1) for y in x)
    if depth and t is dict:
        return any(deep_sym(k, depth - 1) or deep_sym(v, depth - 1) for k, v in x.items())
    return False


def zbool(x):
    """z3 boolean for a truth value without forking (for bool, SymBool)."""
    if type(x) is SymBool:
        return x.e
    if x is True or x is False:
        return _true if x else _false
    return _true if bool(x) else _false


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def land(*xs):
    es = []
    for x in xs:
        if type(x) is SymBool:
            es.append(x.e)
        elif not x:
            return False
    if not es:
        return True
    return SymBool(es[0]) if len(es) == 1 else SymBool(z3.And(es))


def lor(*xs):
    es = []
    for x in xs:
        if type(x) is SymBool:
            es.append(x.e)
        elif x:
            return True
    if not es:
        return False
    return SymBool(es[0]) if len(es) == 1 else SymBool(z3.Or(es))


def lnot(x):
    if type(x) is SymBool:
        return SymBool(z3.Not(x.e))
    return not x


def implies(a, b):
    return lor(lnot(a), b)


def iff(a, b):
    if type(a) is not SymBool:
        return b if a else lnot(b)
    if type(b) is not SymBool:
        return a if b else lnot(a)
    return mkbool(a.e == b.e)


def truth(x):
    """Truthiness as a formula (no fork for scalars)."""
    t = type(x)
    if t is SymBool:
        return x
    if t is SymInt:
        return mkbool(x.e != 0)
    if t is SymBV:
        return mkbool(x.e != 0)
    if t is SymStr:
        return mkbool(z3.Length(x.e) > 0)
    if t is SymAny:
        return x.truth_formula()
    return bool(x)


def eq(a, b):
    """Equality as a formula."""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is SymAny:
        return a.eq_formula(b)
    if tb is SymAny:
        return b.eq_formula(a)
    if (ta is list and tb is list) or (ta is tuple and tb is tuple):
        if len(a) != len(b):
            return False
        return land(*[eq(x, y) for x, y in zip(a, b)])
    if ta is SymDict or tb is SymDict:
        return dict_eq(a, b)
    if ta is dict and tb is dict:
        if len(a) != len(b):
            return False
        if all(k in b for k in a):
            return land(*[eq(v, b[k]) for k, v in a.items()])
        return False
    r = a == b
    if type(r) in (bool, SymBool):
        return r
    return bool(r)


def concretise(expr, candidates, why, limit):
    """Enumerate the concrete values of expr by forking; the path is given up (and counted) when the limit is hit."""
    eng = E()
    for c in candidates:
        if eng.branch(expr == c):
            return c
    for _ in range(limit):
        v = eng.pick(expr)
        if v is None:
            break
        if eng.branch(expr == v):
            return v
    raise PathIncomplete(why)


# --------------------------------------------------------------------------------------------------------------------
# booleans and integers


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return E().branch(self.e)

    def __eq__(self, o):
        if type(o) is SymBool:
            return mkbool(self.e == o.e)
        if o is True:
            return self
        if o is False:
            return mkbool(z3.Not(self.e))
        if type(o) in (int, float):
            return (self if o == 1 else lnot(self)) if o in (0, 1) else False
        if type(o) in (SymInt, SymBV, SymAny):
            return NotImplemented if type(o) is SymAny else self._int() == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    def _int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __and__(self, o):
        if type(o) in (bool, SymBool):
            return land(self, o)
        return self._int() & o

    __rand__ = __and__

    def __or__(self, o):
        if type(o) in (bool, SymBool):
            return lor(self, o)
        return self._int() | o

    __ror__ = __or__

    def __xor__(self, o):
        if type(o) in (bool, SymBool):
            return lnot(iff(self, o))
        return self._int() ^ o

    __rxor__ = __xor__

    def __invert__(self):
        return ~self._int()

    def __int__(self):
        return 1 if self else 0

    __index__ = __int__

    def __add__(self, o):
        return self._int() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._int() - o

    def __mul__(self, o):
        return self._int() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._int() < o

    def __le__(self, o):
        return self._int() <= o

    def __gt__(self, o):
        return self._int() > o

    def __ge__(self, o):
        return self._int() >= o

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return "<symbool>"

    def __format__(self, spec):
        return "<symbool>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


INT_CANDIDATES = []


def unhashable(x):
    t = type(x)
    return t in (list, dict, set, SymDict) or t is SymSet and not x.frozen


def _zeros(e):
    """How many low bits of e are certainly zero (by its form)."""
    if z3.is_int_value(e):
        v = e.as_long()
        return (v & -v).bit_length() - 1 if v else 0
    if z3.is_mul(e):
        return sum(_zeros(e.arg(i)) for i in range(e.num_args()))
    if z3.is_add(e):
        return min(_zeros(e.arg(i)) for i in range(e.num_args()))
    return 0


def offset(e):
    """(x, n) with e = x + n."""
    if z3.is_add(e) and e.num_args() == 2:
        if z3.is_int_value(e.arg(1)):
            return e.arg(0), e.arg(1).as_long()
        if z3.is_int_value(e.arg(0)):
            return e.arg(1), e.arg(0).as_long()
    return e, 0


class SymInt:
    """Mathematical integer backed by a z3 Int."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return int

    @staticmethod
    def _lift(o):
        t = type(o)
        if t is SymInt:
            return o.e
        if t is int:
            return z3.IntVal(o)
        if t is bool:
            return z3.IntVal(int(o))
        if t is SymBool:
            return z3.If(o.e, z3.IntVal(1), z3.IntVal(0))
        if t is SymBV:
            return o.to_int().e
        return None

    def _concrete(self):
        if z3.is_int_value(self.e):
            return self.e.as_long()
        v = concretise(self.e, [], "integer concretised", 12)
        return v.as_long()

    def __bool__(self):
        return E().branch(self.e != 0)

    def __index__(self):
        return self._concrete()

    def __int__(self):
        return self

    def __hash__(self):
        return hash(self._concrete())

    def __repr__(self):
        return "<symint>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<symint>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def _cmp(self, o, op):
        t = type(o)
        if t is float:
            if o != o or o in (float("inf"), float("-inf")):
                return {"eq": False, "ne": True, "lt": o > 0, "le": o > 0, "gt": o < 0, "ge": o < 0}[op]
            a, b = z3.ToReal(self.e), z3.RealVal(repr(o))
        else:
            a = self.e
            b = self._lift(o)
            if b is None:
                return None
            if a is b or a.get_id() == b.get_id():
                return op in ("eq", "le", "ge")
            if z3.is_add(a) or z3.is_add(b):
                x, m = offset(a)
                y, n = offset(b)
                if x.get_id() == y.get_id():  # the same plus constants
                    return {"eq": m == n, "ne": m != n, "lt": m < n, "le": m <= n, "gt": m > n, "ge": m >= n}[op]
        if op == "eq":
            r = a == b
        elif op == "ne":
            r = a != b
        elif op == "lt":
            r = a < b
        elif op == "le":
            r = a <= b
        elif op == "gt":
            r = a > b
        else:
            r = a >= b
        if z3.is_int_value(a) and z3.is_int_value(b):
            r = z3.simplify(r)
        return mkbool(r)

    def __eq__(self, o):
        r = self._cmp(o, "eq")
        if r is None:
            return NotImplemented if type(o) is SymAny or type(o) is SymFloat else False
        return r

    def __ne__(self, o):
        r = self._cmp(o, "eq")
        if r is None:
            return NotImplemented if type(o) is SymAny or type(o) is SymFloat else True
        return lnot(r)

    def __lt__(self, o):
        r = self._cmp(o, "lt")
        return NotImplemented if r is None else r

    def __le__(self, o):
        r = self._cmp(o, "le")
        return NotImplemented if r is None else r

    def __gt__(self, o):
        r = self._cmp(o, "gt")
        return NotImplemented if r is None else r

    def __ge__(self, o):
        r = self._cmp(o, "ge")
        return NotImplemented if r is None else r

    def _bin(self, o, f):
        b = self._lift(o)
        if b is None:
            return NotImplemented
        return mkint(f(self.e, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if type(o) in (str, list, tuple, bytes):
            return NotImplemented
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def __invert__(self):
        return mkint(-self.e - 1)

    @staticmethod
    def _floordiv(a, b):
        # python floor division from z3's Euclidean division; b != 0 was decided
        if z3.is_int_value(b):
            return a / b if b.as_long() > 0 else (-a) / (-b)
        return z3.If(b > 0, a / b, (-a) / (-b))

    def __floordiv__(self, o):
        b = self._lift(o)
        if b is None:
            return NotImplemented
        if bool(mkbool(z3.simplify(b == 0))):
            raise ZeroDivisionError("integer division or modulo by zero")
        return mkint(self._floordiv(self.e, b))

    def __rfloordiv__(self, o):
        b = self._lift(o)
        return NotImplemented if b is None else SymInt(b).__floordiv__(self)

    def __mod__(self, o):
        b = self._lift(o)
        if b is None:
            return NotImplemented
        if bool(mkbool(z3.simplify(b == 0))):
            raise ZeroDivisionError("integer division or modulo by zero")
        return mkint(self.e - b * self._floordiv(self.e, b))

    def __rmod__(self, o):
        if type(o) is str:
            return NotImplemented
        b = self._lift(o)
        return NotImplemented if b is None else SymInt(b).__mod__(self)

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        b = self._lift(o)
        if b is None:
            return NotImplemented
        if bool(mkbool(z3.simplify(b == 0))):
            raise ZeroDivisionError("division by zero")
        return SymFloat(z3.ToReal(self.e) / z3.ToReal(b))

    def __lshift__(self, o):
        if type(o) is not int:
            o = _small(o)
        if o < 0:
            raise ValueError("negative shift count")
        return self * (1 << o)

    def __rlshift__(self, o):
        return o << _small(self)

    def __rshift__(self, o):
        if type(o) is not int:
            o = _small(o)
        if o < 0:
            raise ValueError("negative shift count")
        return self // (1 << o)

    def __rrshift__(self, o):
        return o >> _small(self)

    def __and__(self, o):
        if type(o) is SymInt:
            return self._bitwise(o, "and")
        if type(o) in (SymBool, SymBV):
            o = _small(o) if type(o) is not SymBV else o.__index__()
        if type(o) is not int and type(o) is not bool:
            return NotImplemented
        o = int(o)
        if o < 0:
            return self - (self & ~o)
        if o == 0:
            return 0
        # contiguous low mask is a modulus, otherwise sum the selected bits
        if o & (o + 1) == 0:
            return self % (o + 1)
        r = z3.IntVal(0)
        i = 0
        while o >> i:
            if (o >> i) & 1:
                r = r + ((self.e / (1 << i)) % 2) * (1 << i)
            i += 1
        return mkint(r)

    __rand__ = __and__

    def _bitwise(self, o, op):
        """Bitwise operation of two symbolic integers: by parts if one has low zero bits, else with one of them concrete."""
        import operator

        f = {"and": operator.and_, "or": operator.or_, "xor": operator.xor}[op]
        a, b = (self, o) if _zeros(self.e) >= _zeros(o.e) else (o, self)
        k = _zeros(a.e)
        if k:
            low = 0 if op == "and" else b % (1 << k)
            high = b >> k
            if high == 0:
                return low if op == "and" else a + low
            return (f(a >> k, _small(high)) << k) + low
        return f(a, _small(b))

    def __or__(self, o):
        if type(o) is SymInt:
            return self._bitwise(o, "or")
        x = self & o
        return x if x is NotImplemented else self + o - x

    __ror__ = __or__

    def __xor__(self, o):
        if type(o) is SymInt:
            return self._bitwise(o, "xor")
        x = self & o
        return x if x is NotImplemented else self + o - (x + x)

    __rxor__ = __xor__

    def __pow__(self, o):
        if type(o) is int and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return _small(self) ** o

    def __rpow__(self, o):
        return o ** _small(self)

    def __float__(self):
        return float(self._concrete())

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    __floor__ = __trunc__
    __ceil__ = __trunc__

    def bit_length(self):
        a = z3.If(self.e >= 0, self.e, -self.e)
        r = z3.IntVal(0)
        for k in range(0, 72):
            r = z3.If(a >= (1 << k), z3.IntVal(k + 1), r)
        return SymInt(r)

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        return int_to_bytes(self, length, byteorder, signed)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def is_integer(self):
        return True

    def __round__(self, n=None):
        if n is not None and (type(n) is not int or n < 0):
            raise PathIncomplete("round to digits")
        return self

    def conjugate(self):
        return self


def _small(x):
    """Concretise a small integer by enumeration (complete when at most 70 values are feasible)."""
    if type(x) is int:
        return x
    if type(x) is bool:
        return int(x)
    if type(x) is SymBool:
        return int(x)
    e = x.e
    signed = type(x) is SymBV
    v = concretise(e, [], "integer enumerated", 70)
    return v.as_signed_long() if signed else v.as_long()


def mkint(e):
    if z3.is_int_value(e):
        return e.as_long()
    if e.num_args() and all(z3.is_int_value(c) for c in e.children()):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
    return SymInt(e)


def int_to_bytes(x, length, byteorder, signed):
    if signed:
        raise PathIncomplete("signed to_bytes")
    length = length if type(length) is int else _small(length)
    if bool(x < 0):
        raise OverflowError("can't convert negative int to unsigned")
    if bool(x >= (1 << (8 * length))):
        raise OverflowError("int too big to convert")
    bs = [(x >> (8 * i)) & 0xFF for i in range(length)]
    if byteorder == "big":
        bs.reverse()
    return SymBytes([_byte_term(b) for b in bs])


class SymBV:
    """Mathematical integer represented exactly in two's complement of sufficient width (no operation can wrap)."""

    __slots__ = ("e", "w")

    def __init__(self, e):
        self.e = e
        self.w = e.size()

    @property
    def __class__(self):
        return int

    @staticmethod
    def const(v):
        w = max(v.bit_length() + 1, 2)
        return z3.BitVecVal(v, w)

    @classmethod
    def _lift(cls, o):
        t = type(o)
        if t is SymBV:
            return o.e
        if t is int or t is bool:
            return cls.const(int(o))
        if t is SymBool:
            return z3.If(o.e, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2))
        return None

    @staticmethod
    def _ext(e, w):
        return e if e.size() == w else z3.SignExt(w - e.size(), e)

    def _pair(self, o, extra=0):
        b = self._lift(o)
        if b is None:
            return None
        w = max(self.w, b.size()) + extra
        if w > 4096:
            raise PathIncomplete("bit width")
        return self._ext(self.e, w), self._ext(b, w)

    def to_int(self):
        return SymInt(z3.BV2Int(self.e, is_signed=True))

    def __bool__(self):
        return E().branch(self.e != 0)

    def _concrete(self):
        if z3.is_bv_value(self.e):
            return self.e.as_signed_long()
        v = concretise(self.e, [], "integer concretised", 300)
        return v.as_signed_long()

    def __index__(self):
        return self._concrete()

    def __int__(self):
        return self

    def __hash__(self):
        return hash(self._concrete())

    def __repr__(self):
        return "<symint>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<symint>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def _cmp(self, o, f):
        if type(o) is SymInt:
            return f(self.to_int().e, o.e)
        if type(o) is float and o == int(o):
            o = int(o)
        p = self._pair(o)
        if p is None:
            return None
        return f(*p)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        if r is None:
            return NotImplemented if type(o) is SymAny else False
        return mkbool(z3.simplify(r)) if type(o) is int else mkbool(r)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    def __lt__(self, o):
        r = self._cmp(o, lambda a, b: a < b)
        return NotImplemented if r is None else mkbool(z3.simplify(r))

    def __le__(self, o):
        r = self._cmp(o, lambda a, b: a <= b)
        return NotImplemented if r is None else mkbool(z3.simplify(r))

    def __gt__(self, o):
        r = self._cmp(o, lambda a, b: a > b)
        return NotImplemented if r is None else mkbool(z3.simplify(r))

    def __ge__(self, o):
        r = self._cmp(o, lambda a, b: a >= b)
        return NotImplemented if r is None else mkbool(z3.simplify(r))

    def _arith(self, o, f, extra, swap=False):
        if type(o) is SymInt:
            a, b = self.to_int(), o
            return f(b.e, a.e) if swap else f(a.e, b.e)
        p = self._pair(o, extra)
        if p is None:
            return NotImplemented
        a, b = p
        return mkbv(f(b, a) if swap else f(a, b))

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b, 1)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: a - b, 1, True)

    def __mul__(self, o):
        if type(o) in (str, list, tuple, bytes):
            return NotImplemented
        b = self._lift(o)
        if b is None:
            return NotImplemented
        w = self.w + b.size()
        return mkbv(self._ext(self.e, w) * self._ext(b, w))

    __rmul__ = __mul__

    def __neg__(self):
        return mkbv(-self._ext(self.e, self.w + 1))

    def __pos__(self):
        return self

    def __abs__(self):
        x = self._ext(self.e, self.w + 1)
        return mkbv(z3.If(x >= 0, x, -x))

    def __invert__(self):
        return mkbv(~self.e)

    def _divmod(self, o, swap=False):
        p = self._pair(o, 1)
        if p is None:
            return None
        a, b = p
        if swap:
            a, b = b, a
        if bool(mkbool(z3.simplify(b == 0))):
            raise ZeroDivisionError("integer division or modulo by zero")
        m = z3.simplify(a % b)  # bvsmod: sign follows the divisor, as in Python
        q = (a - m) / b
        return mkbv(z3.simplify(q)), mkbv(m)

    def __floordiv__(self, o):
        if type(o) is int and o > 0 and o & (o - 1) == 0:
            return self >> (o.bit_length() - 1)
        r = self._divmod(o)
        return NotImplemented if r is None else r[0]

    def __rfloordiv__(self, o):
        r = self._divmod(o, True)
        return NotImplemented if r is None else r[0]

    def __mod__(self, o):
        if type(o) is int and o > 0 and o & (o - 1) == 0:
            return self & (o - 1)
        r = self._divmod(o)
        return NotImplemented if r is None else r[1]

    def __rmod__(self, o):
        if type(o) is str:
            return NotImplemented
        r = self._divmod(o, True)
        return NotImplemented if r is None else r[1]

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        return self.to_int() / o

    def __lshift__(self, o):
        if type(o) is int:
            if o < 0:
                raise ValueError("negative shift count")
            if o == 0:
                return self
            return mkbv(z3.Concat(self.e, z3.BitVecVal(0, o)))
        return self << _small(o)

    def __rlshift__(self, o):
        return o << _small(self)

    def __rshift__(self, o):
        if type(o) is int:
            if o < 0:
                raise ValueError("negative shift count")
            if o >= self.w:
                o = self.w - 1
            if o == 0:
                return self
            e = z3.Extract(self.w - 1, o, self.e)
            return mkbv(e if e.size() > 1 else z3.SignExt(1, e))
        return self >> _small(o)

    def __rrshift__(self, o):
        return o >> _small(self)

    def __and__(self, o):
        if type(o) is int and o >= 0:
            n = max(o.bit_length(), 1)
            if n + 1 < self.w:
                a = z3.ZeroExt(1, z3.Extract(n - 1, 0, self.e))
                return mkbv(a & z3.BitVecVal(o, n + 1))
        p = self._pair(o)
        return NotImplemented if p is None else mkbv(p[0] & p[1])

    __rand__ = __and__

    def __or__(self, o):
        p = self._pair(o)
        return NotImplemented if p is None else mkbv(p[0] | p[1])

    __ror__ = __or__

    def __xor__(self, o):
        p = self._pair(o)
        return NotImplemented if p is None else mkbv(p[0] ^ p[1])

    __rxor__ = __xor__

    def __pow__(self, o):
        if type(o) is int and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return _small(self) ** o

    def __rpow__(self, o):
        return o ** _small(self)

    def __float__(self):
        return float(self._concrete())

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    __floor__ = __trunc__
    __ceil__ = __trunc__

    def bit_length(self):
        w = self.w + 1
        x = self._ext(self.e, w)
        a = z3.If(x >= 0, x, -x)
        out = max(8, w.bit_length() + 2)
        r = z3.BitVecVal(0, out)
        for k in range(0, w - 1):
            r = z3.If(z3.UGE(a, z3.BitVecVal(1 << k, w)), z3.BitVecVal(k + 1, out), r)
        return SymBV(r)

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        return int_to_bytes(self, length, byteorder, signed)

    @property
    def real(self):
        return self

    def is_integer(self):
        return True

    def __round__(self, n=None):
        if n is not None and (type(n) is not int or n < 0):
            raise PathIncomplete("round to digits")
        return self


def mkbv(e):
    if not isinstance(e, z3.BitVecRef):
        return mkint(e)
    if z3.is_bv_value(e):
        return e.as_signed_long()
    s = z3.simplify(e)
    if z3.is_bv_value(s):
        return s.as_signed_long()
    return SymBV(e)


class SymFloat:
    """Finite real-valued float (no NaN or rounding: stated assumption)."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return float

    @staticmethod
    def _lift(o):
        t = type(o)
        if t is SymFloat:
            return o.e
        if t is SymInt:
            return z3.ToReal(o.e)
        if t is int or t is bool:
            return z3.RealVal(int(o))
        if t is float:
            return z3.RealVal(repr(o))
        if t is SymBool:
            return z3.If(o.e, z3.RealVal(1), z3.RealVal(0))
        return None

    def _cmp(self, o, f):
        b = self._lift(o)
        return NotImplemented if b is None else mkbool(z3.simplify(f(self.e, b)))

    def __eq__(self, o):
        b = self._lift(o)
        if b is None:
            return NotImplemented if type(o) is SymAny else False
        return mkbool(z3.simplify(self.e == b))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __add__(self, o):
        b = self._lift(o)
        return NotImplemented if b is None else SymFloat(self.e + b)

    __radd__ = __add__

    def __sub__(self, o):
        b = self._lift(o)
        return NotImplemented if b is None else SymFloat(self.e - b)

    def __mul__(self, o):
        b = self._lift(o)
        return NotImplemented if b is None else SymFloat(self.e * b)

    __rmul__ = __mul__

    def __bool__(self):
        return E().branch(self.e != 0)

    def __int__(self):
        return mkint(z3.simplify(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e))))

    __trunc__ = __int__

    def __floor__(self):
        return mkint(z3.simplify(z3.ToInt(self.e)))

    def is_integer(self):
        return mkbool(z3.IsInt(self.e))

    def __round__(self, n=None):
        if n is not None:
            raise PathIncomplete("round to digits")
        f = z3.ToInt(self.e)
        d = self.e - z3.ToReal(f)
        return mkint(z3.simplify(z3.If(z3.Or(d > 0.5, z3.And(d == 0.5, f % 2 == 1)), f + 1, f)))

    def __hash__(self):
        raise PathIncomplete("hash of symbolic float")

    def __repr__(self):
        return "<symfloat>"

    def __format__(self, spec):
        return "<symfloat>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymLog2:
    """math.log2 of a symbolic integer plus an integer, exact up to its floor.

    For 1 <= x < 2^48 the rounding of the double result never crosses an integer (checked in stubs self-test)."""

    __slots__ = ("x", "off")

    def __init__(self, x, off=0):
        self.x = x
        self.off = off

    @property
    def __class__(self):
        return float

    def __floor__(self):
        return self.x.bit_length() - 1 + self.off

    def __int__(self):
        if self.off < 0 and bool(self < 0):
            return self.__ceil__()
        return self.__floor__()

    __trunc__ = __int__

    def __ceil__(self):
        return ((self.x - 1).bit_length() if not bool(self.x == 1) else 0) + self.off

    def __round__(self, n=None):
        if n is not None:
            raise PathIncomplete("rounded log2")
        e = self.x.e
        big = type(self.x) is SymBV
        num = (lambda v: z3.BitVecVal(v, e.size())) if big else z3.IntVal
        r = num(0)
        for k in range(min(48, e.size() - 1) if big else 48):  # the least integer above 2^(k + 1/2)
            r = z3.If(e >= num(math.isqrt(1 << (2 * k + 1)) + 1), num(k + 1), r)
        return (mkbv if big else mkint)(r) + self.off

    def __add__(self, o):
        if type(o) is not int:
            raise PathIncomplete("log2 arithmetic")
        return SymLog2(self.x, self.off + o)

    __radd__ = __add__

    def __sub__(self, o):
        return self + -o

    def is_integer(self):
        return eq(1 << (self.x.bit_length() - 1), self.x)

    def _bound(self, o):
        if type(o) is float and o.is_integer():
            o = int(o)
        if type(o) is not int:
            raise PathIncomplete("log2 comparison")
        return o - self.off

    def __lt__(self, o):
        o = self._bound(o)
        return self.x < (1 << o) if o >= 0 else False

    def __ge__(self, o):
        return lnot(self.__lt__(o))

    def __le__(self, o):
        o = self._bound(o)
        return self.x <= (1 << o) if o >= 0 else False

    def __gt__(self, o):
        return lnot(self.__le__(o))

    def __eq__(self, o):
        if type(o) in (SymInt, SymBV):
            f = self.__floor__()
            return land(self.is_integer(), eq(f, o))
        o = self._bound(o)
        return self.x == (1 << o) if o >= 0 else False

    def __ne__(self, o):
        return lnot(self.__eq__(o))

    def __getattr__(self, name):
        raise PathIncomplete("log2 used as float: " + name)

    __hash__ = None


# --------------------------------------------------------------------------------------------------------------------
# text

STR_POOL = ["", "a", "A", "a.b", "A.b", "a.b.", " a", "a ", "b", "ab", "0", "\u00e9", "wamp.a", "a..b", "x.y.z"]


class SymStr:
    """Text of unbounded length backed by a z3 String."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return str

    @staticmethod
    def _lift(o):
        if type(o) is SymStr:
            return o.e
        if type(o) is str:
            return zstr(o)
        if type(o) is SymText:
            return o.zexpr()
        if isinstance(o, str) and type(o) not in SYM_TYPES:
            return zstr(str.__str__(o))  # str subclasses such as enum members
        return None

    def _concrete(self):
        if z3.is_string_value(self.e):
            return from_zstr(self.e)
        pool = [zstr(s) for s in STR_POOL]
        v = concretise(self.e, pool, "string concretised", 3)
        if isinstance(v, str):
            return v
        return from_zstr(v)

    def __bool__(self):
        return E().branch(self.e != zstr(""))

    def __eq__(self, o):
        b = self._lift(o)
        if b is None:
            return NotImplemented if type(o) in (SymAny, SymType) else False
        a = self.e
        if a.get_id() == b.get_id():
            return True
        if z3.is_string_value(a) and z3.is_string_value(b):
            return from_zstr(a) == from_zstr(b)
        r = eq_formatted(a, b)
        return mkbool(a == b) if r is None else r

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    def __lt__(self, o):
        b = self._lift(o)
        return NotImplemented if b is None else mkbool(self.e < b)

    def __le__(self, o):
        b = self._lift(o)
        return NotImplemented if b is None else mkbool(self.e <= b)

    def __gt__(self, o):
        b = self._lift(o)
        return NotImplemented if b is None else mkbool(b < self.e)

    def __ge__(self, o):
        b = self._lift(o)
        return NotImplemented if b is None else mkbool(b <= self.e)

    def __add__(self, o):
        b = self._lift(o)
        return NotImplemented if b is None else SymStr(z3.Concat(self.e, b))

    def __radd__(self, o):
        b = self._lift(o)
        return NotImplemented if b is None else SymStr(z3.Concat(b, self.e))

    def __mul__(self, o):
        return self._concrete() * o

    def __len__(self):
        raise PathIncomplete("C-level len of symbolic string")

    def sym_len(self):
        return SymInt(z3.Length(self.e))

    def __contains__(self, o):
        return bool(self.contains(o))

    def contains(self, o):
        b = self._lift(o)
        if b is None:
            raise TypeError("'in <string>' requires string as left operand")
        return mkbool(z3.Contains(self.e, b))

    def startswith(self, p, *a):
        if a:
            return self._concrete().startswith(p, *a)
        if type(p) is tuple:
            return lor(*[self.startswith(x) for x in p])
        return mkbool(z3.PrefixOf(self._lift(p), self.e))

    def endswith(self, p, *a):
        if a:
            return self._concrete().endswith(p, *a)
        if type(p) is tuple:
            return lor(*[self.endswith(x) for x in p])
        return mkbool(z3.SuffixOf(self._lift(p), self.e))

    def removeprefix(self, p):
        b = self._lift(p)
        if bool(self.startswith(p)):
            return SymStr(z3.SubString(self.e, z3.Length(b), z3.Length(self.e)))
        return self

    def removesuffix(self, p):
        b = self._lift(p)
        if bool(self.endswith(p)):
            return SymStr(z3.SubString(self.e, 0, z3.Length(self.e) - z3.Length(b)))
        return self

    def find(self, p, *a):
        if a:
            return self._concrete().find(p, *a)
        return SymInt(z3.IndexOf(self.e, self._lift(p), 0))

    def __getitem__(self, i):
        if type(i) is slice:
            if i.step not in (None, 1):
                return self._concrete()[i]
            n = z3.Length(self.e)

            def bound(v, d):
                if v is None:
                    return d
                x = SymInt._lift(v)
                x = z3.If(x < 0, z3.If(x + n < 0, z3.IntVal(0), x + n), z3.If(x > n, n, x))
                return x

            lo, hi = bound(i.start, z3.IntVal(0)), bound(i.stop, n)
            return SymStr(z3.If(hi > lo, z3.SubString(self.e, lo, hi - lo), zstr("")))
        n = z3.Length(self.e)
        x = SymInt._lift(i)
        ok = mkbool(z3.And(x < n, x >= -n))
        if not ok:
            raise IndexError("string index out of range")
        return SymStr(z3.SubString(self.e, z3.If(x < 0, x + n, x), 1))

    def __iter__(self):
        return iter(self._concrete())

    def encode(self, encoding="utf-8", errors="strict"):
        return SymTextBytes(self)

    def __hash__(self):
        return hash(self._concrete())

    def __repr__(self):
        return "<symstr>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<symstr>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(str, name):
            raise AttributeError(f"'str' object has no attribute '{name}'")

        def method(*a, **k):
            return getattr(self._concrete(), name)(*[concrete(x) for x in a], **k)

        return method


def concrete(x):
    """Force a symbolic scalar to a concrete one (forks; counted as incomplete unless enumeration finishes)."""
    t = type(x)
    if t in (SymInt, SymBV, SymStr):
        return x._concrete()
    if t is SymBool:
        return bool(x)
    if t is SymAny:
        return concrete(x.resolve())
    return x


_ZS = {}


def zstr(s):
    r = _ZS.get(s)
    if r is None:
        if all(0x20 <= ord(c) < 0x7F and c != "\\" for c in s):
            r = z3.StringVal(s)
        else:
            r = z3.StringVal("".join(c if 0x20 <= ord(c) < 0x7F and c != "\\" else "\\u{%x}" % ord(c) for c in s))
        _ZS[s] = r
    return r


def from_zstr(v):
    import re

    s = v.as_string()
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)


def formatted(e, out):
    """The literals (str) and decimal integers (z3 terms) that e is made of; None if it has other parts."""
    k = e.decl().kind()
    if z3.is_string_value(e):
        v = from_zstr(e)
        if out and type(out[-1]) is str:
            out[-1] += v
        elif v:
            out.append(v)
        return out
    if k == z3.Z3_OP_SEQ_CONCAT:
        for i in range(e.num_args()):
            if formatted(e.arg(i), out) is None:
                return None
        return out
    if k == z3.Z3_OP_ITE and z3.is_app(e.arg(1)) and e.arg(1).decl().kind() == INT_TO_STR:
        out.append(e.arg(1).arg(0))
        return out
    return None


def eq_formatted(a, b):
    """Equality of two texts made of literals and integers, as a formula over the integers (None: not of that form).

    The decimal form is injective and delimited by any literal that does not start with a digit."""
    if INT_TO_STR not in (_root(a), _root(b)):
        return None
    x, y = formatted(a, []), formatted(b, [])
    if x is None or y is None:
        return None
    if all(type(p) is str for p in y):
        x, y = y, x
    if all(type(p) is str for p in x):
        import re

        text = "".join(x)
        ints = [p for p in y if type(p) is not str]
        if not _delimited(y):
            return None
        m = re.fullmatch("".join(re.escape(p) if type(p) is str else r"(-?[0-9]+)" for p in y), text, re.ASCII)
        if m is None or any(str(int(g)) != g for g in m.groups()):
            return False
        return land(*[mkbool(p == z3.IntVal(int(g))) for p, g in zip(ints, m.groups())])
    if _delimited(x) and _delimited(y) and len(x) == len(y) and all(_alike(p, q) for p, q in zip(x, y)):
        return land(*[True if p.get_id() == q.get_id() else mkbool(p == q) for p, q in zip(x, y) if type(p) is not str])
    gx, gy = _runs(x), _runs(y)
    if len(gx) != len(gy) or not all(_alike(p, q) for p, q in zip(gx, gy)) or not _delimited(gx):
        return None
    ints = [p for p in x + y if type(p) is not str]
    if not E().branch(z3.And(*[p >= 1 for p in ints], *[p < 10 ** 18 for p in ints])):
        return None
    return land(*[mkbool(_joined(p) == _joined(q)) for p, q in zip(gx, gy) if type(p) is not str])


def _alike(p, q):
    return p == q if type(p) is str or type(q) is str else True


def _runs(parts):
    """Adjacent integers grouped."""
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
        elif out and type(out[-1]) is tuple:
            out[-1] += (p,)
        else:
            out.append((p,))
    return out


def _joined(run):
    """The number written by positive integers below 10^18 one after the other."""
    v = run[0]
    for p in run[1:]:
        r = v * 10 ** 18
        for n in range(17, 0, -1):
            r = z3.If(p < 10 ** n, v * 10 ** n, r)
        v = r + p
    return v


def _delimited(parts):
    return all(type(p) is str and type(q) is not str or type(p) is not str and type(q) is str and not q[0].isdigit()
               for p, q in zip(parts, parts[1:]))


def _root(e):
    """INT_TO_STR if a formatted integer occurs in the concatenation."""
    k = e.decl().kind()
    if k == z3.Z3_OP_SEQ_CONCAT:
        return INT_TO_STR if any(_root(e.arg(i)) == INT_TO_STR for i in range(e.num_args())) else None
    if k == z3.Z3_OP_ITE and z3.is_app(e.arg(1)) and e.arg(1).decl().kind() == INT_TO_STR:
        return INT_TO_STR
    return None


INT_TO_STR = z3.IntToStr(z3.Int("i")).decl().kind()


def to_str(x):
    """str(x) for symbolic x."""
    t = type(x)
    if t is SymStr or t is SymText or t is SymCStr:
        return x
    if t is SymBV:
        x = x.to_int()
        t = SymInt
    if t is SymInt:
        return SymStr(z3.If(x.e >= 0, z3.IntToStr(x.e), z3.Concat(zstr("-"), z3.IntToStr(-x.e))))
    if t is SymBool:
        return SymStr(z3.If(x.e, zstr("True"), zstr("False")))
    if t is SymAny:
        return OPAQUE
    return str(x)


class Opaque(str):
    """Text of symbolic values that is not modelled: good for messages, but nothing may depend on it."""

    def _lost(self, *a, **k):
        raise PathIncomplete("text of a symbolic value used")

    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __hash__ = __contains__ = __getitem__ = __iter__ = __len__ = _lost
    encode = startswith = endswith = find = index = count = split = rsplit = partition = rpartition = isdigit = _lost
    splitlines = isalnum = isalpha = isdecimal = isidentifier = islower = isupper = removeprefix = removesuffix = _lost

    def _opaque(self, *a, **k):
        return self

    __add__ = __radd__ = __mod__ = __mul__ = __rmul__ = __format__ = join = format = replace = strip = lower = upper = _opaque
    lstrip = rstrip = title = capitalize = casefold = swapcase = center = ljust = rjust = zfill = translate = __str__ = _opaque
    __rmod__ = expandtabs = _opaque

    def __reduce__(self):
        return str, ("<symbolic>",)


OPAQUE = Opaque("<symbolic>")


def to_spec(x, spec):
    """format(x, spec) for symbolic x."""
    import re

    if spec in ("", "s") or spec == "d" and type(x) in (SymInt, SymBV):
        return to_str(x)
    m = re.fullmatch(r"(#?)0([0-9]+)([xX])", spec)
    if m is None and spec in ("x", "X"):
        return hex_text(x, 0, spec)
    if m is None:
        return OPAQUE
    pre = "0" + m[3] if m[1] else ""
    r = hex_text(x, int(m[2]) - len(pre), m[3])
    return r if r is OPAQUE or not pre else SymCStr([ord(ch) for ch in pre]) + r


def hex_text(x, width, letter):
    """x in hexadecimal, with at least `width` digits."""
    if type(x) is SymInt and bool(land(x >= 0, x < 256)):
        x = SymBV(z3.ZeroExt(1, _byte_term(x)))
    if type(x) is not SymBV or not bool(x >= 0):
        return OPAQUE
    w = max(width, 1)
    while w < 16 and 4 * w < x.w and not bool(x < 16 ** w):
        w += 1
    e = z3.ZeroExt(4 * w, x.e)
    out = []
    for i in range(w - 1, -1, -1):
        n = z3.simplify(z3.Extract(4 * i + 3, 4 * i, e))
        if letter == "x":
            out.append(HexChar(n))
        else:
            z = z3.ZeroExt(4, n)
            out.append(z3.If(z3.ULT(n, z3.BitVecVal(10, 4)), z + 48, z + 55))
    return SymCStr(out)



def concat_str(parts):
    """Concatenation of str / symbolic text parts."""
    if any(type(p) is Opaque for p in parts):
        return OPAQUE
    if not any(is_sym(p) for p in parts):
        return "".join(parts)
    if all(type(p) in (str, SymCStr) for p in parts):
        r = SymCStr([])
        for p in parts:
            r = r + p
        return r
    if not all(type(p) in (str, SymStr, SymText) for p in parts):
        return OPAQUE
    es = [SymStr._lift(p) for p in parts if not (type(p) is str and p == "")]
    if not es:
        return ""
    return SymStr(es[0] if len(es) == 1 else z3.Concat(*es))


class SymText:
    """Text produced by a stubbed encoder: opaque, but tied to the value it encodes (see stubs.py)."""

    __slots__ = ("codec", "value", "opts", "_z")

    def __init__(self, codec, value, opts=None):
        self.codec = codec
        self.value = value
        self.opts = opts or {}
        self._z = None

    @property
    def __class__(self):
        return str

    def zexpr(self):
        if self._z is None:
            k = E().path_vars.setdefault("text_counter", 0)
            E().path_vars["text_counter"] = k + 1
            self._z = z3.String(f"encoded_text.{k}")
            E().add(z3.Length(self._z) > 0, self._z, z3.StringVal("[]"))
        return self._z

    def encode(self, *a, **k):
        return SymTextBytes(self)

    def __eq__(self, o):
        if o is self:
            return True
        if type(o) is SymText:
            if o.codec == self.codec:
                return eq(self.value, o.value)
            return mkbool(self.zexpr() == o.zexpr())
        if type(o) in (str, SymStr):
            return mkbool(self.zexpr() == SymStr._lift(o))
        return NotImplemented if type(o) is SymAny else False

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    def __bool__(self):
        return True

    def sym_len(self):
        return SymInt(z3.Length(self.zexpr()))

    def __add__(self, o):
        return SymStr(self.zexpr()) + o

    def __radd__(self, o):
        return o + SymStr(self.zexpr())

    def __getitem__(self, i):
        return SymStr(self.zexpr())[i]

    def contains(self, o):
        return SymStr(self.zexpr()).contains(o)

    def __contains__(self, o):
        return bool(self.contains(o))

    def startswith(self, *a):
        return SymStr(self.zexpr()).startswith(*a)

    def endswith(self, *a):
        return SymStr(self.zexpr()).endswith(*a)

    def strip(self):
        return self

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "<symtext>"

    def __format__(self, spec):
        return "<symtext>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(str, name):
            raise AttributeError(f"'str' object has no attribute '{name}'")
        raise PathIncomplete("encoded text: " + name)


class SymTextBytes:
    """The UTF-8 encoding of symbolic text (injective, so equality of bytes is equality of text)."""

    __slots__ = ("text",)

    def __init__(self, text):
        self.text = text

    @property
    def __class__(self):
        return bytes

    def decode(self, *a, **k):
        return self.text

    def zexpr(self):
        return SymStr._lift(self.text)

    @staticmethod
    def _other(o):
        if type(o) is SymTextBytes:
            return o.text
        if type(o) is bytes:
            try:
                return o.decode("utf-8")
            except UnicodeDecodeError:
                return None
        return None

    def __eq__(self, o):
        if type(o) is SymAny:
            return NotImplemented
        t = self._other(o)
        if t is None:
            return False
        return eq(self.text, t)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    def __bool__(self):
        return bool(self.text)

    def __add__(self, o):
        t = self._other(o)
        if t is None:
            raise PathIncomplete("bytes concatenation")
        return SymTextBytes(self.text + t)

    def __radd__(self, o):
        t = self._other(o)
        if t is None:
            raise PathIncomplete("bytes concatenation")
        return SymTextBytes(t + self.text)

    def sym_len(self):
        # exact for ASCII; in general only a lower bound, so treat as incomplete unless compared with zero
        return self.text.sym_len() if is_sym(self.text) else len(self.text.encode())

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "<symbytes>"

    def __format__(self, spec):
        return "<symbytes>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # prefixes, suffixes and parts of valid UTF-8 that are valid UTF-8 are those of the text
    def _affix(self, name, o):
        t = self._other(o)
        if t is None:
            raise PathIncomplete("text bytes: " + name)
        return getattr(self.text, name)(t)

    def startswith(self, o, *a):
        return self._affix("startswith", o) if not a else self.__getattr__("startswith")(o, *a)

    def endswith(self, o, *a):
        return self._affix("endswith", o) if not a else self.__getattr__("endswith")(o, *a)

    def contains(self, o):
        t = self._other(o)
        if t is None:
            raise PathIncomplete("text bytes: in")
        return sym_contains(self.text, t)

    def __contains__(self, o):
        return bool(self.contains(o))

    # positions in the bytes are positions in the text as long as it is ASCII
    def _ascii(self):
        if is_sym(self.text):
            if type(self.text) is not SymStr:
                raise PathIncomplete("text bytes")
            if not E().branch(z3.InRe(self.text.e, z3.Star(z3.Range(z3.StringVal("\\u{0}"), z3.StringVal("\\u{7f}"))))):
                raise PathIncomplete("part of the encoding of a non-ASCII text")
        return self.text

    def __getitem__(self, i):
        r = self._ascii()[i]
        if type(i) is slice:
            return SymTextBytes(r) if is_sym(r) else r.encode()
        return ord(r) if type(r) is str else SymInt(z3.StrToCode(r.e))

    def __iter__(self):
        return iter([ord(x) for x in self._ascii()])

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(bytes, name):
            raise AttributeError(f"'bytes' object has no attribute '{name}'")
        if name not in ("strip", "lstrip", "rstrip", "lower", "upper", "replace", "ljust", "rjust", "removeprefix",
                        "removesuffix", "find", "rfind", "index", "count", "zfill"):
            raise PathIncomplete("text bytes: " + name)

        def method(*a, **k):
            r = getattr(self._ascii(), name)(*[x.decode("ascii") if type(x) is bytes else x for x in a], **k)
            return r.encode() if type(r) in (str, SymStr) else r

        return method


# --------------------------------------------------------------------------------------------------------------------
# byte strings and fixed-length text as vectors of terms


def _byte_term(x):
    """Element of a SymBytes: int or z3 BitVec(8)."""
    if type(x) is int:
        return x
    if type(x) is SymBV:
        e = x.e
        if e.size() > 8:
            e = z3.Extract(7, 0, e)
        elif e.size() < 8:
            e = z3.SignExt(8 - e.size(), e)
        e = z3.simplify(e)
        return e.as_long() if z3.is_bv_value(e) else e
    if type(x) is SymInt:
        e = z3.simplify(z3.Int2BV(x.e, 8))
        return e.as_long() if z3.is_bv_value(e) else e
    raise engine.EngineError(f"byte from {type(x)}")




def term_eq(a, b):
    if type(a) is int and type(b) is int:
        return a == b
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        b = z3.BitVecVal(b, a.size())
    if a.get_id() == b.get_id():
        return True
    return mkbool(a == b)


def vec_eq(xs, ys):
    if len(xs) != len(ys):
        return False
    return land(*[term_eq(a, b) for a, b in zip(xs, ys)])


def bytes_from_ints(items):
    """bytes(iterable of ints) with symbolic members."""
    out = []
    for x in items:
        if type(x) is SymAny:
            x = x.resolve()
        if type(x) in (SymInt, SymBV):
            if bool(lor(x < 0, x > 255)):
                raise ValueError("bytes must be in range(0, 256)")
            out.append(_byte_term(x))
        elif type(x) in (int, bool):
            if not 0 <= x <= 255:
                raise ValueError("bytes must be in range(0, 256)")
            out.append(int(x))
        elif type(x) is SymBool:
            out.append(int(x))
        else:
            raise TypeError(f"'{type(x).__name__}' object cannot be interpreted as an integer")
    return SymBytes(out)


class SymBytes:
    """Bytes of concrete length whose elements are ints or 8-bit terms."""

    __slots__ = ("b", "mutable")

    def __init__(self, b, mutable=False):
        self.b = b
        self.mutable = mutable

    @property
    def __class__(self):
        return bytearray if self.mutable else bytes

    def __len__(self):
        return len(self.b)

    def __bool__(self):
        return bool(self.b)

    @staticmethod
    def _int(t):
        return t if type(t) is int else SymBV(z3.ZeroExt(1, t))

    def __getitem__(self, i):
        if type(i) is slice:
            return SymBytes(self.b[i])
        if is_sym(i):
            i = _small(i)
        return self._int(self.b[i])

    def __setitem__(self, i, v):
        if not self.mutable:
            raise TypeError("'bytes' object does not support item assignment")
        self.b[i] = bytes_from_ints([v]).b[0]

    def append(self, v):
        if not self.mutable:
            raise AttributeError("'bytes' object has no attribute 'append'")
        self.b.append(bytes_from_ints([v]).b[0])

    def extend(self, v):
        if not self.mutable:
            raise AttributeError("'bytes' object has no attribute 'extend'")
        self.b.extend(self._terms(v))

    def __iter__(self):
        return iter([self._int(t) for t in self.b])

    def __reversed__(self):
        return iter([self._int(t) for t in reversed(self.b)])

    @staticmethod
    def _terms(o):
        if type(o) is SymBytes:
            return o.b
        if type(o) in (bytes, bytearray):
            return list(o)
        return None

    def __eq__(self, o):
        t = self._terms(o)
        if t is None:
            if type(o) is SymTextBytes:
                raise PathIncomplete("bytes vs text bytes")
            return NotImplemented if type(o) is SymAny else False
        return vec_eq(self.b, t)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    def __add__(self, o):
        t = self._terms(o)
        if t is None:
            raise TypeError(f"can't concat {type(o).__name__} to bytes")
        return SymBytes(self.b + t, self.mutable)

    def __radd__(self, o):
        t = self._terms(o)
        if t is None:
            raise TypeError("can't concat")
        return SymBytes(t + self.b)

    def __mul__(self, n):
        return SymBytes(self.b * n)

    def startswith(self, p):
        t = self._terms(p)
        return vec_eq(self.b[: len(t)], t)

    def endswith(self, p):
        t = self._terms(p)
        return vec_eq(self.b[len(self.b) - len(t):] if len(t) <= len(self.b) else [], t)

    def contains(self, o):
        if type(o) is int or type(o) in (SymInt, SymBV):
            return lor(*[eq(self._int(t), o) for t in self.b])
        t = self._terms(o)
        n = len(t)
        return lor(*[vec_eq(self.b[i: i + n], t) for i in range(0, len(self.b) - n + 1)])

    def __contains__(self, o):
        return bool(self.contains(o))

    def hex(self):
        return hexlify_terms(self.b)

    def decode(self, encoding="utf-8", *a):
        return SymCStr([hex_char(t) for t in self.b], check_utf8=True)

    def rjust(self, width, fill=b" "):
        return SymBytes([fill[0]] * max(0, width - len(self.b)) + self.b)

    def ljust(self, width, fill=b" "):
        return SymBytes(self.b + [fill[0]] * max(0, width - len(self.b)))

    def as_bv(self):
        ts = [z3.BitVecVal(t, 8) if type(t) is int else t for t in self.b]
        return ts[0] if len(ts) == 1 else z3.Concat(*ts)

    def __hash__(self):
        raise PathIncomplete("hash of symbolic bytes")

    def __repr__(self):
        return "<symbytes>"

    def __format__(self, spec):
        return "<symbytes>"

    def __copy__(self):
        return self if not self.mutable else SymBytes(list(self.b), True)

    def __deepcopy__(self, memo):
        return self.__copy__()

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(bytes, name):
            raise AttributeError(f"'bytes' object has no attribute '{name}'")
        raise PathIncomplete("bytes." + name)


class HexChar:
    """One lowercase hex digit of a 4-bit term."""

    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def code(self):
        z = z3.ZeroExt(4, self.n)
        t = z3.If(z3.ULT(self.n, z3.BitVecVal(10, 4)), z + 48, z + 87)
        HEXCODE[t.get_id()] = (t, self)
        return t


HEXCODE = {}  # terms known to be codes of hex digits


def hex_char(t):
    """The character of a code term: a HexChar if it is known to be a hex digit."""
    if type(t) is not int:
        h = HEXCODE.get(t.get_id())
        if h is not None:
            return h[1]
    return t


def char_code(c):
    """int or BitVec8 for a character of a SymCStr."""
    if type(c) is HexChar:
        return c.code()
    return c


def char_eq(a, b):
    if type(a) is HexChar and type(b) is HexChar:
        return term_eq(a.n, b.n)
    if type(a) is HexChar and type(b) is int:
        a, b = b, a
    if type(b) is HexChar and type(a) is int:
        s = chr(a)
        if s in "0123456789abcdef":
            return term_eq(b.n, z3.BitVecVal(int(s, 16), 4))
        return False
    return term_eq(char_code(a), char_code(b))


def hexlify_terms(b):
    out = []
    for t in b:
        if type(t) is int:
            out.extend(ord(c) for c in "%02x" % t)
        else:
            out.append(HexChar(z3.simplify(z3.Extract(7, 4, t))))
            out.append(HexChar(z3.simplify(z3.Extract(3, 0, t))))
    return SymCStr(out)


def hex_nibble(c):
    """4-bit value of a hex digit, or None when it is (possibly) no hex digit after forking."""
    if type(c) is HexChar:
        return c.n
    if type(c) is int:
        s = chr(c)
        if s in "0123456789abcdefABCDEF":
            return z3.BitVecVal(int(s, 16), 4)
        return None
    dig = z3.And(z3.UGE(c, 48), z3.ULE(c, 57))
    low = z3.And(z3.UGE(c, 97), z3.ULE(c, 102))
    upp = z3.And(z3.UGE(c, 65), z3.ULE(c, 70))
    if not mkbool(z3.Or(dig, low, upp)):
        return None
    v = z3.If(dig, c - 48, z3.If(low, c - 87, c - 55))
    return z3.Extract(3, 0, v)


class SymCStr:
    """Text of concrete length; characters are code points (int), 8-bit terms (ASCII) or hex digits."""

    __slots__ = ("c",)

    def __init__(self, c, check_utf8=False):
        self.c = c

    @property
    def __class__(self):
        return str

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return bool(self.c)

    @staticmethod
    def _chars(o):
        if type(o) is SymCStr:
            return o.c
        if isinstance(o, str) and type(o) not in SYM_TYPES:
            return [ord(ch) for ch in o]
        return None

    def zexpr(self):
        raise PathIncomplete("fixed-length text used as unbounded text")

    def __eq__(self, o):
        t = self._chars(o)
        if t is None:
            if type(o) in (SymStr, SymText):
                raise PathIncomplete("text representations mixed")
            return NotImplemented if type(o) is SymAny else False
        if len(t) != len(self.c):
            return False
        return land(*[char_eq(a, b) for a, b in zip(self.c, t)])

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    def __getitem__(self, i):
        if type(i) is slice:
            return SymCStr(self.c[i])
        if is_sym(i):
            i = _small(i)
        return SymCStr([self.c[i]])

    def __iter__(self):
        return iter([SymCStr([x]) for x in self.c])

    def __add__(self, o):
        t = self._chars(o)
        return NotImplemented if t is None else SymCStr(self.c + t)

    def __radd__(self, o):
        t = self._chars(o)
        return NotImplemented if t is None else SymCStr(t + self.c)

    def startswith(self, p):
        t = self._chars(p)
        return eq(SymCStr(self.c[: len(t)]), SymCStr(t))

    def endswith(self, p):
        t = self._chars(p)
        return eq(SymCStr(self.c[len(self.c) - len(t):] if len(t) <= len(self.c) else []), SymCStr(t))

    def removesuffix(self, p):
        return SymCStr(self.c[: len(self.c) - len(self._chars(p))]) if bool(self.endswith(p)) else self

    def removeprefix(self, p):
        return SymCStr(self.c[len(self._chars(p)):]) if bool(self.startswith(p)) else self

    def contains(self, o):
        t = self._chars(o)
        n = len(t)
        return lor(*[eq(SymCStr(self.c[i: i + n]), SymCStr(t)) for i in range(0, len(self.c) - n + 1)])

    def __contains__(self, o):
        return bool(self.contains(o))

    def lower(self):
        out = []
        for c in self.c:
            if type(c) is HexChar:
                out.append(c)
            elif type(c) is int:
                out.extend(ord(x) for x in chr(c).lower())
            else:
                out.append(z3.If(z3.And(z3.UGE(c, 65), z3.ULE(c, 90)), c + 32, c))
        return SymCStr(out)

    def upper(self):
        out = []
        for c in self.c:
            c = char_code(c)
            if type(c) is int:
                out.extend(ord(x) for x in chr(c).upper())
            else:
                out.append(z3.If(z3.And(z3.UGE(c, 97), z3.ULE(c, 122)), c - 32, c))
        return SymCStr(out)

    casefold = lower

    def strip(self, *a):
        if a or any(type(c) not in (int, HexChar) for c in self.c):
            raise PathIncomplete("strip")
        c = list(self.c)
        while c and type(c[0]) is int and chr(c[0]).isspace():
            c.pop(0)
        while c and type(c[-1]) is int and chr(c[-1]).isspace():
            c.pop()
        return SymCStr(c)

    def encode(self, *a, **k):
        if any(type(c) is int and c > 127 for c in self.c):
            out = []
            for c in self.c:
                out.extend(chr(c).encode()) if type(c) is int else out.append(char_code(c))
            return SymBytes(out)
        return SymBytes([char_code(c) for c in self.c])

    def __hash__(self):
        raise PathIncomplete("hash of symbolic text")

    def __repr__(self):
        return "<symstr>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<symstr>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(str, name):
            raise AttributeError(f"'str' object has no attribute '{name}'")
        raise PathIncomplete("str." + name)


class SymB64:
    """base64 text of symbolic bytes (canonical encoding)."""

    __slots__ = ("raw",)

    def __init__(self, raw):
        self.raw = raw  # SymBytes

    @property
    def __class__(self):
        return str

    def encode(self, *a, **k):
        return SymB64Bytes(self)

    def decode(self, *a, **k):
        return self

    def __len__(self):
        return (len(self.raw) + 2) // 3 * 4

    def __eq__(self, o):
        if type(o) is SymB64:
            return eq(self.raw, o.raw)
        if type(o) in (SymB64Bytes, bytes):
            return False
        if type(o) is str:
            import base64
            import binascii

            try:
                raw = base64.b64decode(o, validate=True)
            except (binascii.Error, ValueError):
                return False
            if base64.b64encode(raw).decode() != o:
                return False
            return eq(self.raw, raw)
        if type(o) in (SymStr, SymText, SymCStr):
            raise PathIncomplete("base64 text compared with other text")
        return NotImplemented if type(o) is SymAny else False

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    def __bool__(self):
        return len(self.raw) > 0

    def rstrip(self, chars=None):
        raise PathIncomplete("base64 text rstrip")

    def strip(self, *a):
        return self if not a else self.rstrip(*a)

    def chars(self):
        """The text as a SymCStr (exact)."""
        b = [t if type(t) is not int else z3.BitVecVal(t, 8) for t in self.raw.b]
        out = []
        for i in range(0, len(b), 3):
            ch = b[i: i + 3]
            pad = 3 - len(ch)
            v = z3.Concat(*(ch + [z3.BitVecVal(0, 8)] * pad)) if len(ch) + pad > 1 else ch[0]
            for j in range(4):
                if j >= 4 - pad:
                    out.append(ord("="))
                    continue
                s = z3.ZeroExt(2, z3.Extract(23 - 6 * j, 18 - 6 * j, v))
                out.append(
                    z3.simplify(
                        z3.If(
                            z3.ULT(s, 26), s + 65,
                            z3.If(z3.ULT(s, 52), s + 71,
                                  z3.If(z3.ULT(s, 62), s - 4, z3.If(s == 62, z3.BitVecVal(43, 8), z3.BitVecVal(47, 8)))),
                        )
                    )
                )
        return SymCStr([c.as_long() if type(c) is not int and z3.is_bv_value(c) else c for c in out])

    def __getitem__(self, i):
        return self.chars()[i]

    def __iter__(self):
        return iter(self.chars())

    def startswith(self, p):
        return self.chars().startswith(p.chars() if type(p) is SymB64 else p)

    def endswith(self, p):
        return self.chars().endswith(p.chars() if type(p) is SymB64 else p)

    def contains(self, p):
        return self.chars().contains(p.chars() if type(p) is SymB64 else p)

    def lower(self):
        return self.chars().lower()

    def upper(self):
        return self.chars().upper()

    casefold = lower

    def __contains__(self, p):
        return bool(self.contains(p))

    def __hash__(self):
        raise PathIncomplete("hash of symbolic text")

    def __repr__(self):
        return "<symb64>"

    def __format__(self, spec):
        return "<symb64>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(str, name):
            raise AttributeError(f"'str' object has no attribute '{name}'")
        raise PathIncomplete("base64 text: " + name)


class SymB64Bytes:
    __slots__ = ("text",)

    def __init__(self, text):
        self.text = text

    @property
    def __class__(self):
        return bytes

    def decode(self, *a, **k):
        return self.text

    def __len__(self):
        return len(self.text)

    def __bool__(self):
        return len(self.text) > 0

    def __eq__(self, o):
        if type(o) is SymB64Bytes:
            return eq(self.text, o.text)
        if type(o) is bytes:
            try:
                return eq(self.text, o.decode("ascii"))
            except UnicodeDecodeError:
                return False
        if type(o) is SymBytes:
            return eq(SymBytes([char_code(c) for c in self.text.chars().c]), o)
        return NotImplemented if type(o) is SymAny else False

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    def as_symbytes(self):
        return SymBytes([char_code(c) for c in self.text.chars().c])

    def __getitem__(self, i):
        return self.as_symbytes()[i]

    def startswith(self, p):
        return self.as_symbytes().startswith(p.as_symbytes() if type(p) is SymB64Bytes else p)

    def strip(self, *a):
        return self

    def __hash__(self):
        raise PathIncomplete("hash")

    def __repr__(self):
        return "<symb64>"

    def __format__(self, spec):
        return "<symb64>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(bytes, name):
            raise AttributeError(f"'bytes' object has no attribute '{name}'")
        raise PathIncomplete("base64 bytes: " + name)


# --------------------------------------------------------------------------------------------------------------------
# containers with symbolic keys

_MISSING = object()


class OpenBase:
    """The unknown rest of an arbitrary dictionary: entries materialise when a constant key is looked up."""

    def __init__(self, maker, extra=None):
        self.maker = maker
        self.entries = {}
        self.extra = extra  # a key that stands for all others when the whole dictionary is looked at

    def get(self, key):
        e = self.entries.get(key)
        if e is None:
            e = self.maker(key)  # (present, value)
            self.entries[key] = e
        return e


class SymDict:
    """Insertion-ordered dictionary whose keys may be symbolic and whose entries may be conditionally present."""

    __slots__ = ("items_", "base", "pulled", "ver", "orig")

    def __init__(self, items=None, base=None):
        self.items_ = [] if items is None else items  # [key, value, present]
        self.base = base
        self.orig = base
        self.pulled = set()
        self.ver = 0

    @property
    def __class__(self):
        return dict

    # -- lookup
    def _pull(self, key):
        if self.base is not None and type(key) is str and key not in self.pulled:
            self.pulled.add(key)
            present, value = self.base.get(key)
            if present is not False:
                self.items_.append([key, value, present])

    def _find(self, key):
        if type(key) is SymAny:
            key = key.resolve()
        if unhashable(key):
            raise TypeError(f"unhashable type: '{key.__class__.__name__}'")
        if self.base is not None:
            self._pull(key)
        cands = []
        for i, it in enumerate(self.items_):
            k = it[0]
            if k is key:
                c = True
            else:
                c = eq(k, key)
            if c is False:
                continue
            if c is True:
                p = it[2]
                if p is True:
                    return i
                cands = [(i, p)]
                # keys are pairwise distinct, so no other entry can match
                break
            cands.append((i, land(c, it[2])))
        for i, c in cands:
            if bool(c):
                it = self.items_[i]
                it[2] = True
                return i
        return -1

    def contains(self, key):
        if type(key) is SymAny:
            key = key.resolve()
        if unhashable(key):
            raise TypeError(f"unhashable type: '{key.__class__.__name__}'")
        if self.base is not None:
            self._pull(key)
        cs = []
        for k, _, p in self.items_:
            c = True if k is key else eq(k, key)
            if c is True:
                return p
            if c is not False:
                cs.append(land(c, p))
        return lor(*cs)

    def __contains__(self, key):
        return bool(self.contains(key))

    def __getitem__(self, key):
        i = self._find(key)
        if i < 0:
            return self.__missing__(key)
        return self.items_[i][1]

    def __missing__(self, key):
        raise KeyError(key)

    def get(self, key, default=None):
        i = self._find(key)
        return default if i < 0 else self.items_[i][1]

    def __setitem__(self, key, value):
        i = self._find(key)
        if i < 0:
            # an absent conditional entry with this very key must not reappear
            self.items_ = [it for it in self.items_ if not (it[2] is not True and eq(it[0], key) is True)]
            self.items_.append([key.resolve() if type(key) is SymAny else key, value, True])
            self.ver += 1
        else:
            self.items_[i][1] = value

    def __delitem__(self, key):
        i = self._find(key)
        if i < 0:
            raise KeyError(key)
        del self.items_[i]
        self.ver += 1

    def pop(self, key, default=_MISSING):
        i = self._find(key)
        if i < 0:
            if default is _MISSING:
                raise KeyError(key)
            return default
        v = self.items_[i][1]
        del self.items_[i]
        self.ver += 1
        return v

    def popitem(self):
        self._settle()
        if not self.items_:
            raise KeyError("popitem(): dictionary is empty")
        k, v, _ = self.items_.pop()
        self.ver += 1
        return k, v

    def setdefault(self, key, default=None):
        i = self._find(key)
        if i < 0:
            self[key] = default
            return default
        return self.items_[i][1]

    # -- whole-dictionary operations
    def _settle(self):
        """Decide the presence of every entry."""
        if self.base is not None:
            if self.base.extra is not None:
                self.base.get(self.base.extra)
            for k in list(self.base.entries):
                self._pull(k)
            self.base = None
        if any(it[2] is not True for it in self.items_):
            self.items_ = [it for it in self.items_ if it[2] is True or bool(it[2])]
            for it in self.items_:
                it[2] = True

    def __len__(self):
        self._settle()
        return len(self.items_)

    def __bool__(self):
        if self.base is None and any(it[2] is True for it in self.items_):
            return True
        return len(self) > 0

    def _iter(self, f):
        self._settle()
        ver = self.ver
        i = 0
        while True:
            if self.ver != ver:
                raise RuntimeError("dictionary changed size during iteration")
            if i >= len(self.items_):
                return
            it = self.items_[i]
            i += 1
            yield f(it)

    def __iter__(self):
        return self._iter(lambda it: it[0])

    def __reversed__(self):
        self._settle()
        return iter([it[0] for it in reversed(self.items_)])

    def keys(self):
        return SymView(self, lambda it: it[0], "keys")

    def values(self):
        return SymView(self, lambda it: it[1], "values")

    def items(self):
        return SymView(self, lambda it: (it[0], it[1]), "items")

    def clear(self):
        self.items_ = []
        self.base = None
        self.ver += 1

    def copy(self):
        d = SymDict([list(it) for it in self.items_], self.base)
        d.pulled = set(self.pulled)
        return d

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy

        d = SymDict([[it[0], copy.deepcopy(it[1], memo), it[2]] for it in self.items_], self.base)
        d.pulled = set(self.pulled)
        return d

    def update(self, *a, **kw):
        for o in a:
            if hasattr(o, "keys"):
                if type(o) is SymDict and o is self:
                    continue
                for k in list(o.keys()):
                    self[k] = o[k]
            else:
                for k, v in o:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def __or__(self, o):
        d = self.copy()
        d.update(o)
        return d

    def __ror__(self, o):
        d = SymDict()
        d.update(o)
        d.update(self)
        return d

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        if type(o) is SymAny:
            return NotImplemented
        return dict_eq(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    __hash__ = None

    def __repr__(self):
        return "<symdict>"

    def __format__(self, spec):
        return "<symdict>"


class SymDefaultDict(SymDict):
    __slots__ = ("default_factory",)

    def __init__(self, factory=None, *a, **k):
        super().__init__()
        self.default_factory = factory
        self.update(*a, **k)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = self.default_factory()
        self[key] = v
        return v


class SymView:
    __slots__ = ("d", "f", "kind")

    def __init__(self, d, f, kind):
        self.d = d
        self.f = f
        self.kind = kind

    def __len__(self):
        return len(self.d)

    def __bool__(self):
        return bool(self.d)

    def __iter__(self):
        return self.d._iter(self.f)

    def __reversed__(self):
        self.d._settle()
        return iter([self.f(it) for it in reversed(self.d.items_)])

    def contains(self, x):
        if self.kind == "keys":
            return self.d.contains(x)
        return lor(*[eq(x, y) for y in self])

    def __contains__(self, x):
        return bool(self.contains(x))

    def _set(self):
        return SymSet(list(self))

    def __eq__(self, o):
        return self._set() == (o._set() if type(o) is SymView else o)

    def __and__(self, o):
        return self._set() & o

    def __or__(self, o):
        return self._set() | o

    def __sub__(self, o):
        return self._set() - o

    def __repr__(self):
        return "<symview>"

    __hash__ = None


def _as_items(d):
    if type(d) is SymDict or type(d) is SymDefaultDict:
        return d.items_
    return [[k, v, True] for k, v in d.items()]


def dict_eq(a, b):
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if not (ta in (SymDict, SymDefaultDict, dict) and tb in (SymDict, SymDefaultDict, dict)):
        return False
    sa = ta is not dict
    sb = tb is not dict
    base_a = a.base if sa else None
    base_b = b.base if sb else None
    if base_a is not base_b:
        # an open dictionary equals a closed one only in a way we do not model: close it
        if base_a is not None:
            a._settle()
        if base_b is not None:
            b._settle()
    elif base_a is not None:
        for k in list(base_a.entries):
            a._pull(k)
            b._pull(k)
    ia, ib = _as_items(a), _as_items(b)
    consts = all(type(it[0]) in (str, int) for it in ia) and all(type(it[0]) in (str, int) for it in ib)
    if consts:
        da = {it[0]: it for it in ia}
        db = {it[0]: it for it in ib}
        cs = []
        for k in list(da) + [k for k in db if k not in da]:
            x, y = da.get(k), db.get(k)
            px = x[2] if x else False
            py = y[2] if y else False
            if x and y:
                cs.append(iff(px, py))
                cs.append(implies(px, eq(x[1], y[1])))
            else:
                cs.append(lnot(px if x else py))
            if cs[-1] is False:
                return False
        return land(*cs)
    if sa:
        a._settle()
    if sb:
        b._settle()
    ia, ib = _as_items(a), _as_items(b)
    if len(ia) != len(ib):
        return False
    cs = []
    for k, v, _ in ia:
        cs.append(lor(*[land(eq(k, k2), eq(v, v2)) for k2, v2, _ in ib]))
    return land(*cs)


class SymSet:
    __slots__ = ("items_", "ver", "frozen")

    def __init__(self, it=(), frozen=False):
        self.items_ = []
        self.ver = 0
        self.frozen = False
        for x in it:
            self.add(x)
        self.frozen = frozen

    @property
    def __class__(self):
        return frozenset if self.frozen else set

    def _find(self, x):
        if type(x) is SymAny:
            x = x.resolve()
        if unhashable(x):
            raise TypeError(f"unhashable type: '{x.__class__.__name__}'")
        cands = []
        for i, y in enumerate(self.items_):
            c = True if y is x else eq(y, x)
            if c is True:
                return i
            if c is not False:
                cands.append((i, c))
        for i, c in cands:
            if bool(c):
                return i
        return -1

    def contains(self, x):
        if type(x) is SymAny:
            x = x.resolve()
        if unhashable(x):
            raise TypeError("unhashable type")
        return lor(*[True if y is x else eq(y, x) for y in self.items_])

    def __contains__(self, x):
        return bool(self.contains(x))

    def add(self, x):
        if self.frozen:
            raise AttributeError("'frozenset' object has no attribute 'add'")
        if self._find(x) < 0:
            self.items_.append(x.resolve() if type(x) is SymAny else x)
            self.ver += 1

    def discard(self, x):
        i = self._find(x)
        if i >= 0:
            del self.items_[i]
            self.ver += 1

    def remove(self, x):
        i = self._find(x)
        if i < 0:
            raise KeyError(x)
        del self.items_[i]
        self.ver += 1

    def pop(self):
        if not self.items_:
            raise KeyError("pop from an empty set")
        self.ver += 1
        return self.items_.pop(0)

    def clear(self):
        self.items_ = []
        self.ver += 1

    def __len__(self):
        return len(self.items_)

    def __bool__(self):
        return bool(self.items_)

    def __iter__(self):
        ver = self.ver
        i = 0
        while True:
            if self.ver != ver:
                raise RuntimeError("Set changed size during iteration")
            if i >= len(self.items_):
                return
            yield self.items_[i]
            i += 1

    def copy(self):
        s = SymSet()
        s.items_ = list(self.items_)
        return s

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def update(self, *os):
        for o in os:
            for x in list(o):
                self.add(x)

    def union(self, *os):
        s = self.copy()
        s.update(*os)
        return s

    def __or__(self, o):
        return self.union(o)

    __ror__ = __or__

    def __ior__(self, o):
        self.update(o)
        return self

    def intersection(self, o):
        o = o if type(o) in (SymSet, SymDict, SymView) else SymSet(o)
        return SymSet([x for x in list(self.items_) if bool(o.contains(x))])

    def __and__(self, o):
        return self.intersection(o)

    __rand__ = __and__

    def difference(self, o):
        o = o if type(o) in (SymSet, SymDict, SymView) else SymSet(o)
        return SymSet([x for x in list(self.items_) if not bool(o.contains(x))])

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return SymSet(o) - self

    def __isub__(self, o):
        for x in list(o):
            self.discard(x)
        return self

    def difference_update(self, o):
        self.__isub__(o)

    def __iand__(self, o):
        self.items_ = self.intersection(o).items_
        self.ver += 1
        return self

    def __xor__(self, o):
        o = SymSet(o)
        return (self - o) | (o - self)

    def symmetric_difference(self, o):
        return self ^ o

    def issubset(self, o):
        o = o if type(o) is SymSet else SymSet(o)
        return land(*[o.contains(x) for x in self.items_])

    def issuperset(self, o):
        return land(*[self.contains(x) for x in o])

    def isdisjoint(self, o):
        return land(*[lnot(self.contains(x)) for x in o])

    __le__ = issubset
    __ge__ = issuperset

    def __lt__(self, o):
        return land(self <= o, len(self) < len(o))

    def __eq__(self, o):
        if type(o) is SymAny:
            return NotImplemented
        if type(o) in (set, frozenset):
            o = SymSet(o)
        if type(o) is SymView:
            o = o._set()
        if type(o) is not SymSet:
            return False
        if len(o) != len(self):
            return False
        return self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    __hash__ = None

    def __repr__(self):
        return "<symset>"

    def __format__(self, spec):
        return "<symset>"


# --------------------------------------------------------------------------------------------------------------------
# arbitrary decoded wire values

KINDS = ("none", "bool", "int", "float", "str", "bytes", "list", "dict")
KTYPE = {
    "none": type(None), "bool": bool, "int": int, "float": float, "str": str, "bytes": bytes, "list": list,
    "dict": dict,
}
KIDX = {k: i for i, k in enumerate(KINDS)}


class SymAny:
    """A value of unknown type: the type is itself symbolic and is decided only as far as the code asks."""

    __slots__ = ("name", "kinds", "kvar", "mk", "_r", "_parts", "plain")

    def __init__(self, name, kinds, kvar, mk):
        self.name = name
        self.kinds = tuple(kinds)  # still possible
        self.kvar = kvar
        self.mk = mk  # mk(kind) -> value
        self._r = _MISSING
        self._parts = {}
        self.plain = ()  # codecs that give this value back whatever it is

    # -- type queries
    def part(self, kind):
        p = self._parts.get(kind, _MISSING)
        if p is _MISSING:
            p = self.mk(kind)
            self._parts[kind] = p
        return p

    def kind_in(self, kinds):
        ks = [k for k in self.kinds if k in kinds]
        if len(ks) == len(self.kinds):
            return True
        if not ks:
            return False
        return mkbool(z3.Or([self.kvar == KIDX[k] for k in ks]))

    def narrow(self, kinds):
        """Decide whether the kind is among kinds; remembers the answer."""
        c = self.kind_in(kinds)
        r = bool(c)
        self.kinds = tuple(k for k in self.kinds if (k in kinds) == r)
        return r

    def isinstance_(self, t):
        if self._r is not _MISSING:
            return isinstance(self._r, t)
        ts = t if type(t) is tuple else (t,)
        ks = set()
        for k in self.kinds:
            if any(issubclass(KTYPE[k], x) if isinstance(x, type) else isinstance(_proto(k), x) for x in ts):
                ks.add(k)
        return self.narrow(ks)

    def exact_type(self, t):
        if self._r is not _MISSING:
            return pytype(self._r) is t
        ks = {k for k in self.kinds if KTYPE[k] is t}
        return self.narrow(ks)

    def resolve(self):
        if self._r is _MISSING:
            while len(self.kinds) > 1:
                if self.narrow({self.kinds[0]}):
                    break
            k = self.kinds[0]
            self._r = None if k == "none" else self.part(k)
        return self._r

    @property
    def __class__(self):
        return pytype(self.resolve())

    # -- formulas
    def eq_formula(self, o):
        if self is o:
            return True
        if self._r is not _MISSING:
            return eq(self._r, o) if self._r is not None else o_is_none(o)
        if type(o) is SymAny:
            if o._r is not _MISSING:
                return o.eq_formula(self)
            cs = []
            for k in self.kinds:
                if k not in o.kinds:
                    continue
                both = land(self.kind_in((k,)), o.kind_in((k,)))
                if k == "none":
                    cs.append(both)
                elif k in ("list", "dict"):
                    cs.append(land(both, mkbool(z3.Bool(f"same.{self.name}.{o.name}"))))
                else:
                    cs.append(land(both, eq(self.part(k), o.part(k))))
            return lor(*cs)
        t = type(o)
        if o is None:
            return self.kind_in(("none",))
        cs = []
        for k in self.kinds:
            if k == "none":
                continue
            if k in ("bool", "int", "float") and t in (int, bool, float, SymInt, SymBool, SymFloat, SymBV):
                cs.append(land(self.kind_in((k,)), eq(self.part(k), o)))
            elif k == "str" and (t in (SymStr, SymText, SymCStr) or isinstance(o, str)):
                cs.append(land(self.kind_in((k,)), eq(self.part(k), o)))
            elif k == "bytes" and t in (bytes, SymBytes, SymTextBytes):
                cs.append(land(self.kind_in((k,)), eq(self.part(k), o)))
            elif k == "list" and t is list or k == "dict" and t in (dict, SymDict):
                cs.append(land(self.kind_in((k,)), eq(self.part(k), o)))
        return lor(*cs)

    def truth_formula(self):
        if self._r is not _MISSING:
            return truth(self._r)
        if all(k in ("none", "bool", "int", "float", "str") for k in self.kinds):
            cs = []
            for k in self.kinds:
                if k == "none":
                    continue
                p = self.part(k)
                t = SymBool(p.e != 0) if type(p) is SymFloat else truth(p)
                cs.append(land(self.kind_in((k,)), t))
            return lor(*cs)
        return truth(self.resolve())

    def __bool__(self):
        return bool(self.truth_formula())

    def __eq__(self, o):
        return self.eq_formula(o)

    def __ne__(self, o):
        return lnot(self.eq_formula(o))

    def __hash__(self):
        r = self.resolve()
        if unhashable(r):
            raise TypeError(f"unhashable type: '{pytype(r).__name__}'")
        return hash(r)

    def __copy__(self):
        r = self.resolve()
        import copy

        return copy.copy(r)

    def __deepcopy__(self, memo):
        r = self.resolve()
        import copy

        return copy.deepcopy(r, memo)

    def __repr__(self):
        return "<symany>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<symany>"

    def __getattr__(self, name):
        if name.startswith("__") and name not in ("__len__",):
            raise AttributeError(name)
        return getattr(self.resolve(), name)

    def sym_len(self):
        return sym_len(self.resolve())

    def contains(self, x):
        return sym_contains(self.resolve(), x)


def _proto(k):
    return {"none": None, "bool": True, "int": 1, "float": 1.0, "str": "", "bytes": b"", "list": [], "dict": {}}[k]


def o_is_none(o):
    return o is None if type(o) is not SymAny else o.eq_formula(None)


def _deleg(name):
    def f(self, *a):
        r = self.resolve()
        import operator

        m = getattr(type(r), name, None)
        if m is None:
            raise TypeError(f"unsupported operand for {pytype(r).__name__}: {name}")
        x = m(r, *a)
        return x

    return f


for _n in (
    "__lt__ __le__ __gt__ __ge__ __add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __floordiv__ __mod__ __truediv__ "
    "__and__ __or__ __xor__ __rand__ __ror__ __lshift__ __rshift__ __neg__ __abs__ __invert__ __getitem__ __setitem__ "
    "__delitem__ __iter__ __len__ __index__ __int__ __float__ __reversed__"
).split():
    setattr(SymAny, _n, _deleg(_n))


def _contains_any(self, x):
    return bool(sym_contains(self.resolve(), x))


SymAny.__contains__ = _contains_any


class SymType:
    """type(x) of an unresolved SymAny."""

    __slots__ = ("x",)

    def __init__(self, x):
        self.x = x

    @property
    def __name__(self):
        return SymTypeName(self.x)


    def __eq__(self, o):
        if isinstance(o, type):
            return self.x.exact_type(o)
        if type(o) is SymType:
            return pytype(self.x.resolve()) is pytype(o.x.resolve())
        return False

    def __ne__(self, o):
        return not self.__eq__(o)

    def __call__(self, *a, **k):
        return pytype(self.x.resolve())(*a, **k)

    def __hash__(self):
        return hash(pytype(self.x.resolve()))

    def __repr__(self):
        return "<symtype>"

    def __format__(self, spec):
        return "<symtype>"

    def __getattr__(self, name):
        return getattr(pytype(self.x.resolve()), name)


class SymTypeName:
    __slots__ = ("x",)

    def __init__(self, x):
        self.x = x

    @property
    def __class__(self):
        return str

    def __eq__(self, o):
        if type(o) is str:
            ks = {k for k in KINDS if KTYPE[k].__name__ == o}
            return self.x.narrow(ks) if self.x._r is _MISSING else pytype(self.x._r).__name__ == o
        return False

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(pytype(self.x.resolve()).__name__)

    def __repr__(self):
        return OPAQUE

    __str__ = __repr__

    def __format__(self, spec):
        return OPAQUE

    def __getattr__(self, name):
        return getattr(pytype(self.x.resolve()).__name__, name)


def pytype(x):
    """The Python type x stands for."""
    t = type(x)
    if t in SYM_TYPES:
        return x.__class__
    return t


# --------------------------------------------------------------------------------------------------------------------
# generic operations used by hooks


def sym_len(x):
    t = type(x)
    if t is SymAny:
        return sym_len(x.resolve())
    if t in (SymStr, SymTextBytes) or issubclass(t, SymText):
        return x.sym_len()
    if t in (SymInt, SymBV, SymBool, SymFloat):
        raise TypeError(f"object of type '{pytype(x).__name__}' has no len()")
    return len(x)


def sym_contains(c, x):
    """x in c as a formula (or bool)."""
    t = type(c)
    if t is SymAny:
        return sym_contains(c.resolve(), x)
    m = getattr(t, "contains", None)
    if m is not None and t in SYM_TYPES:
        return c.contains(x)
    if t in (list, tuple):
        if deep_sym(c) or is_sym(x) or deep_sym(x):
            return lor(*[eq(y, x) for y in c])
        return x in c
    if t in (dict, set, frozenset) or t in (type({}.keys()), type({}.values())):
        if is_sym(x) or deep_sym(x) or deep_sym(list(c)):
            if type(x) is SymAny:
                x = x.resolve()
            if unhashable(x):
                raise TypeError(f"unhashable type: '{pytype(x).__name__}'")
            return lor(*[eq(y, x) for y in c])
        return x in c
    if t is str and is_sym(x):
        if type(x) is SymAny:
            x = x.resolve()
        b = SymStr._lift(x) if type(x) is not SymCStr else None
        if b is None:
            if type(x) is SymCStr:
                n = len(x)
                return lor(*[eq(x, c[i: i + n]) for i in range(0, len(c) - n + 1)])
            raise TypeError("'in <string>' requires string as left operand")
        return mkbool(z3.Contains(zstr(c), b))
    if t in (bytes, bytearray) and is_sym(x):
        return SymBytes(list(c)).contains(x)
    if t is range and is_sym(x):
        if type(x) is SymAny:
            x = x.resolve()
            if not is_sym(x):
                return x in c
        if type(x) is SymBool:
            return lor(land(x, 1 in c), land(lnot(x), 0 in c))
        if type(x) is SymFloat and len(c) == 0:
            return False
        if type(x) is SymFloat:
            if c.step not in (1, -1):
                raise PathIncomplete("float in range")
            lo, hi = min(c[0], c[-1]), max(c[0], c[-1])
            return land(x.is_integer(), x >= lo, x <= hi)
        if type(x) in (SymInt, SymBV) and len(c):
            r = land(x >= min(c[0], c[-1]), x <= max(c[0], c[-1]))
            return r if c.step in (1, -1) else land(r, eq((x - c[0]) % abs(c.step), 0))
        return False
    return x in c


SYM_TYPES = frozenset(
    (
        SymBool, SymInt, SymBV, SymFloat, SymLog2, SymStr, SymText, SymTextBytes, SymBytes, SymCStr, SymB64, SymB64Bytes,
        SymDict, SymDefaultDict, SymSet, SymView, SymAny, SymType, SymTypeName,
    )
)
collections.abc.MutableMapping.register(SymDict)
collections.abc.MutableSet.register(SymSet)
