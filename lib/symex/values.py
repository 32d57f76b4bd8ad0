"""Symbolic Python values over z3 terms: bool, int, float (exact real), str, bytes."""
import z3
from decimal import Decimal
from fractions import Fraction
from .core import cur, Unsupported


def truth(x):
    """Python truth value of x without forking when it is a SymBool."""
    if isinstance(x, SymBool):
        return x
    if isinstance(x, (SymInt, SymFloat)):
        return SymBool(x.e != 0)
    return bool(x)


def zb(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    t = truth(x)
    return t.e if isinstance(t, SymBool) else z3.BoolVal(t)


class SymBool:
    __slots__ = ('e',)
    sx_type = bool

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return cur().branch(self.e)

    def __index__(self):
        return 1 if self else 0

    def __int__(self):
        return 1 if self else 0

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.And(self.e, zb(o)))
        return self.as_int() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.Or(self.e, zb(o)))
        return self.as_int() | o
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, zb(o)))
    __rxor__ = __xor__

    def as_int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.e == zb(o))
        if isinstance(o, (int, SymInt)):
            return self.as_int() == o
        return False

    def __ne__(self, o):
        return sx_not(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __add__(self, o):
        return self.as_int() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self.as_int() - o

    def __rsub__(self, o):
        return o - self.as_int()

    def __mul__(self, o):
        return self.as_int() * o
    __rmul__ = __mul__

    def __lt__(self, o):
        return self.as_int() < o

    def __gt__(self, o):
        return self.as_int() > o

    def __repr__(self):
        return 'SymBool(%s)' % str(self.e)[:60]


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def sx_not(x):
    if isinstance(x, SymBool):
        return mkbool(z3.Not(x.e))
    return not x


def sx_and(*xs):
    return mkbool(z3.And(*[zb(x) for x in xs])) if xs else True


def sx_or(*xs):
    return mkbool(z3.Or(*[zb(x) for x in xs])) if xs else False


def implies(a, b):
    return sx_or(sx_not(a), b)


def iff(a, b):
    return mkbool(zb(a) == zb(b))


def zi(x):
    """Int term of an int-like value"""
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return x.as_int().e
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, z3.ArithRef):
        return x
    raise Unsupported("int term of %r" % type(x))


def zr(x):
    """Real term of a number"""
    if isinstance(x, SymFloat):
        return x.e
    if isinstance(x, (SymInt, SymBool)):
        return z3.ToReal(zi(x))
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported("non-finite float")
        return z3.RealVal(str(Fraction(x)))
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    raise Unsupported("real term of %r" % type(x))


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def mkreal(e):
    e = z3.simplify(e)
    return SymFloat(e)


_num = (int, float, Fraction)


def is_intlike(x):
    return isinstance(x, (int, SymInt, SymBool))


def is_num(x):
    return isinstance(x, (int, float, Fraction, SymInt, SymBool, SymFloat))


def py_floordiv(a, b):
    """Python floor division on z3 Ints (b != 0 is known)."""
    # z3 div: Euclidean-like: a = b*q + r, 0 <= r < |b|
    b = z3.simplify(b)
    if z3.is_int_value(b):
        bv = b.as_long()
        if bv > 0:
            return a / b
        return (-a) / z3.IntVal(-bv)
    return z3.If(b > 0, a / b, (-a) / (-b))


def _guard_zero(b):
    c = cur()
    z = b == 0
    if c.branch(z):
        raise ZeroDivisionError("division by zero")


class SymInt:
    __slots__ = ('e',)
    sx_type = int

    def __init__(self, e):
        self.e = e

    # arithmetic
    def _bin(self, o, f, ff=None):
        if is_intlike(o):
            return mkint(f(self.e, zi(o)))
        if isinstance(o, (float, SymFloat)):
            return getattr(SymFloat(z3.ToReal(self.e)), ff)(o)
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, '__add__')

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a, '__radd__')

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, '__sub__')

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, '__rsub__')

    def __mul__(self, o):
        if isinstance(o, (str, SymStr, bytes, SymBytes, list, tuple)):
            return o * cur().concretize(self.e)
        return self._bin(o, lambda a, b: a * b, '__mul__')

    def __rmul__(self, o):
        return self.__mul__(o)

    def __floordiv__(self, o):
        if is_intlike(o):
            b = zi(o)
            _guard_zero(b)
            return mkint(py_floordiv(self.e, b))
        if isinstance(o, (float, SymFloat)):
            return SymFloat(z3.ToReal(self.e)) // o
        return NotImplemented

    def __rfloordiv__(self, o):
        if is_intlike(o):
            _guard_zero(self.e)
            return mkint(py_floordiv(zi(o), self.e))
        return NotImplemented

    def __mod__(self, o):
        if is_intlike(o):
            b = zi(o)
            _guard_zero(b)
            return mkint(self.e - b * py_floordiv(self.e, b)) if not z3.is_int_value(z3.simplify(b)) or \
                z3.simplify(b).as_long() < 0 else mkint(self.e % b)
        return NotImplemented

    def __rmod__(self, o):
        if is_intlike(o):
            _guard_zero(self.e)
            a = zi(o)
            return mkint(a - self.e * py_floordiv(a, self.e))
        return NotImplemented

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __truediv__(self, o):
        if is_num(o):
            return _truediv(self, o)
        return NotImplemented

    def __rtruediv__(self, o):
        if is_num(o):
            return _truediv(o, self)
        return NotImplemented

    def __pow__(self, o, mod=None):
        if mod is not None:
            raise Unsupported("3-arg pow")
        if isinstance(o, SymInt):
            o = cur().concretize(o.e)
        if isinstance(o, int) and o >= 0:
            r = z3.IntVal(1)
            for _ in range(o):
                r = r * self.e
            return mkint(r)
        if isinstance(o, int):
            return _truediv(1, self ** (-o))
        raise Unsupported("pow")

    def __rpow__(self, o):
        return o ** cur().concretize(self.e)

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def __invert__(self):
        return mkint(-self.e - 1)

    def __lshift__(self, o):
        if isinstance(o, SymInt):
            o = cur().concretize(o.e)
        return mkint(self.e * (2 ** o))

    def __rlshift__(self, o):
        return o << cur().concretize(self.e)

    def __rshift__(self, o):
        if isinstance(o, SymInt):
            o = cur().concretize(o.e)
        return mkint(self.e / z3.IntVal(2 ** o))

    def __rrshift__(self, o):
        return o >> cur().concretize(self.e)

    def _bit(self, o, op):
        if isinstance(o, int) and op == 'and':
            if o >= 0 and (o & (o + 1)) == 0:     # 2^k - 1
                return mkint(self.e % z3.IntVal(o + 1)) if o else 0
        if isinstance(o, int) and op == 'or' and o >= 0:
            # a | 2^k-aligned constants over known-disjoint ranges: (x << 1) | b with b in {0,1}
            if o == 0:
                return self
        # general: bit-vector detour, requires both in [0, 2^64)
        a, b = self.e, zi(o)
        c = cur()
        if c.branch(z3.Or(a < 0, b < 0, a >= 2 ** 64, b >= 2 ** 64)):
            raise Unsupported("bit operation outside [0, 2^64)")
        x, y = z3.Int2BV(a, 64), z3.Int2BV(b, 64)
        r = {'and': x & y, 'or': x | y, 'xor': x ^ y}[op]
        return mkint(z3.BV2Int(r))

    def __and__(self, o):
        if isinstance(o, SymBool):
            o = o.as_int()
        return self._bit(o, 'and') if is_intlike(o) else NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        return self._bit(o, 'or') if is_intlike(o) else NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        return self._bit(o, 'xor') if is_intlike(o) else NotImplemented
    __rxor__ = __xor__

    # comparisons
    def _cmp(self, o, f, ff):
        if is_intlike(o):
            return mkbool(f(self.e, zi(o)))
        if isinstance(o, (float, SymFloat, Fraction)):
            if isinstance(o, float) and (o != o or abs(o) == float('inf')):
                return {'__lt__': o > 0, '__le__': o > 0, '__gt__': o < 0, '__ge__': o < 0}.get(ff, False)
            return mkbool(f(z3.ToReal(self.e), zr(o)))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, '__lt__')

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, '__le__')

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, '__gt__')

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, '__ge__')

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, '__eq__')
        return False if r is NotImplemented and not _foreign(o) else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, '__ne__')
        return True if r is NotImplemented and not _foreign(o) else r

    def __bool__(self):
        return cur().branch(self.e != 0)

    def __index__(self):
        return cur().concretize(self.e)

    def __int__(self):
        raise Unsupported("int() on SymInt outside instrumented code")

    def __float__(self):
        raise Unsupported("float() on SymInt outside instrumented code")

    def __hash__(self):
        raise Unsupported("hash of symbolic int")

    def __repr__(self):
        return 'SymInt(%s)' % str(self.e)[:60]

    def __str__(self):
        raise Unsupported("str() on SymInt outside instrumented code")

    def __format__(self, spec):
        raise Unsupported("format() on SymInt outside instrumented code")

    # int API
    def bit_length(self):
        return cur().concretize(self.e).bit_length()

    def to_bytes(self, *a, **k):
        return cur().concretize(self.e).to_bytes(*a, **k)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def is_integer(self):
        return True

    def __round__(self, n=None):
        if n is None or n >= 0:
            return self
        raise Unsupported('round')

    def __ceil__(self):
        return self

    def __floor__(self):
        return self

    def __trunc__(self):
        return self


def _foreign(o):
    """An object that may know how to compare itself with a SymInt/SymStr."""
    t = type(o)
    return not (t in (str, bytes, list, dict, tuple, set, type(None)) or t in (SymStr, SymBytes))


def _exact_result(e):
    """hook for float rounding models: default is exact real arithmetic"""
    model = getattr(cur(), 'round_model', None)
    if model is not None:
        return model(e)
    return e


def _truediv(a, b):
    c = cur()
    zb_ = zr(b)
    if c.branch(zb_ == 0):
        raise ZeroDivisionError("division by zero")
    return mkreal(_exact_result(zr(a) / zb_))


class SymFloat:
    """A float as a real term; rounding is handled by ctx.round_model (None = exact)."""
    __slots__ = ('e', 'dec')
    sx_type = float

    def __init__(self, e, dec=None):
        self.e = e
        self.dec = dec          # the decimal this float prints as, when it differs from its value

    def decimal(self):
        if self.dec is not None:
            return self.dec
        if getattr(cur(), 'round_model', None) is not None:
            raise Unsupported("decimal text of a rounded float")
        return self.e

    def _bin(self, o, f):
        if is_num(o):
            return mkreal(_exact_result(f(self.e, zr(o))))
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if is_num(o):
            return _truediv(self, o)
        return NotImplemented

    def __rtruediv__(self, o):
        if is_num(o):
            return _truediv(o, self)
        return NotImplemented

    def __floordiv__(self, o):
        if is_num(o):
            return SymFloat(z3.ToReal(z3.ToInt(_truediv(self, o).e)))
        return NotImplemented

    def __pow__(self, o):
        if isinstance(o, int) and o >= 0:
            r = SymFloat(z3.RealVal(1))
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported("float pow")

    def __neg__(self):
        return SymFloat(z3.simplify(-self.e), dec=None if self.dec is None else z3.simplify(-self.dec))

    def __pos__(self):
        return self

    def __abs__(self):
        d = self.dec
        return SymFloat(z3.simplify(z3.If(self.e >= 0, self.e, -self.e)), dec=None if d is None else z3.simplify(z3.If(d >= 0, d, -d)))

    def _cmp(self, o, f):
        if isinstance(o, float) and (o != o or abs(o) == float('inf')):
            return bool(f(0.0, o))
        if is_num(o):
            return mkbool(f(self.e, zr(o)))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __bool__(self):
        return cur().branch(self.e != 0)

    def __hash__(self):
        raise Unsupported("hash of symbolic float")

    def trunc(self):
        return mkint(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def floor(self):
        return mkint(z3.ToInt(self.e))

    def ceil(self):
        return mkint(-z3.ToInt(-self.e))

    __trunc__ = trunc
    __floor__ = floor
    __ceil__ = ceil

    def __round__(self, n=None):
        if n is None:
            # banker's rounding
            f = z3.ToInt(self.e)
            d = self.e - z3.ToReal(f)
            half = z3.RealVal('1/2')
            return mkint(z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1))))
        p = 10 ** n if n >= 0 else Fraction(1, 10 ** -n)
        r = SymFloat(self.e * zr(p)).__round__()
        return mkreal(zr(r) / zr(p))

    def is_integer(self):
        return mkbool(z3.ToReal(z3.ToInt(self.e)) == self.e)

    def __repr__(self):
        return 'SymFloat(%s)' % str(self.e)[:60]

    def __str__(self):
        raise Unsupported("str() on SymFloat outside instrumented code")

    def __format__(self, spec):
        raise Unsupported("format() on SymFloat outside instrumented code")


class SymDec(SymFloat):
    """A decimal.Decimal as an exact real term (28 significant digits are not exceeded by the modelled values)."""
    __slots__ = ()
    sx_type = Decimal

    def _bin(self, o, f):
        if is_num(o):
            if isinstance(o, (float, SymFloat)) and not isinstance(o, SymDec):
                raise TypeError("unsupported operand type(s): 'decimal.Decimal' and 'float'")
            return SymDec(z3.simplify(f(self.e, zr(o))))
        return NotImplemented

    def decimal(self):
        return self.e

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b)

    def scaleb(self, n):
        if not isinstance(n, int):
            raise Unsupported("scaleb")
        return SymDec(z3.simplify(self.e * zr(Fraction(10) ** n)))

    def __neg__(self):
        return SymDec(-self.e)

    def __abs__(self):
        return SymDec(z3.If(self.e >= 0, self.e, -self.e))

    def to_integral_value(self, rounding=None):
        r = SymFloat(self.e)
        if rounding in (None, 'ROUND_HALF_EVEN'):
            return SymDec(zr(r.__round__()))
        raise Unsupported("rounding mode")
    to_integral = to_integral_value

    def __round__(self, n=None):
        r = SymFloat.__round__(self, n)
        return r if n is None else SymDec(zr(r))


# --------------------------------------------------------------------------
# sequences

class Atom:
    """Opaque text fragment inside a SymStr: unknown, non-empty content.

    kind/args identify it; `charset` (frozenset of chars or None) bounds the characters it may contain,
    `same(other)` gives the condition under which two atoms are the same text.
    """
    charset = None      # predicate description: set of allowed characters, or None = unknown
    nonempty = True
    fixed1 = False      # exactly one character wide
    width = None        # number of characters when fixed

    def same(self, other):
        return self is other

    def length(self):
        if self.width is not None:
            return self.width
        raise Unsupported("length of opaque text %r" % self)

    def concrete(self, m):
        raise Unsupported("concrete value of %r" % self)

    def may_contain(self, ch):
        return self.charset is None or ch in self.charset


class NumAtom(Atom):
    """Decimal rendering of an integer term (str(int))."""
    charset = frozenset('-0123456789')

    def __init__(self, v):
        self.v = v

    def same(self, o):
        if isinstance(o, NumAtom):
            return self.v == o.v
        return False

    def length(self):
        v = self.v
        e = zi(v)
        a = z3.If(e >= 0, e, -e)
        n = z3.If(e < 0, z3.IntVal(1), z3.IntVal(0)) + 1
        # number of digits, exact for |v| < 10^80
        if cur().branch(a >= 10 ** 80):
            raise Unsupported("length of a number with more than 80 digits")
        for k in range(1, 80):
            n = n + z3.If(a >= 10 ** k, z3.IntVal(1), z3.IntVal(0))
        return mkint(n)

    def concrete(self, m):
        return str(to_concrete(self.v, m))

    def __repr__(self):
        return 'NumAtom(%r)' % (self.v,)


class BitAtom(NumAtom):
    """One binary digit."""
    charset = frozenset('01')
    fixed1 = True

    def length(self):
        return 1


class FloatAtom(Atom):
    """repr of a float term"""
    charset = frozenset('-0123456789.einfa+')

    def __init__(self, v):
        self.v = v

    def same(self, o):
        return (self.v == o.v) if isinstance(o, FloatAtom) else False

    def concrete(self, m):
        return repr(to_concrete(self.v, m))

    def __repr__(self):
        return 'FloatAtom(%r)' % (self.v,)


def _isz(x):
    return isinstance(x, z3.AstRef)


def in_ranges(c, ranges):
    if isinstance(c, int):
        return any(lo <= c <= hi for lo, hi in ranges)
    return z3.Or(*[(z3.And(c >= lo, c <= hi) if lo != hi else c == lo) for lo, hi in ranges])


_RANGES = {}


def ranges_of(pred_name):
    """Code-point ranges on which str.<pred_name>() holds for the single character (exact, from the interpreter)."""
    if pred_name not in _RANGES:
        out = []
        start = None
        for cp in range(0x110000):
            ok = getattr(chr(cp), pred_name)()
            if ok and start is None:
                start = cp
            elif not ok and start is not None:
                out.append((start, cp - 1))
                start = None
        if start is not None:
            out.append((start, 0x10FFFF))
        _RANGES[pred_name] = out
    return _RANGES[pred_name]


def _restrict(c, name):
    """ranges, restricted (when the context declares it) to the characters inputs may use"""
    hi = getattr(cur(), 'max_code', None)
    r = ranges_of(name)
    if hi is not None:
        r = [(a, min(b, hi)) for a, b in r if a <= hi]
    return r


def code_pred(c, name):
    """z3/py condition: character code c satisfies str.<name>()"""
    if isinstance(c, int):
        return getattr(chr(c), name)()
    return in_ranges(c, _restrict(c, name))


class SymSeq:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = items

    def has_atoms(self):
        return any(isinstance(i, Atom) and not i.fixed1 for i in self.items)

    def _noatoms(self, what):
        if self.has_atoms():
            raise Unsupported("%s on text with opaque fragments: %r" % (what, self))

    def __len__(self):
        n = self.length()
        if isinstance(n, SymInt):
            return cur().concretize(n.e)
        return n

    def length(self):
        n = 0
        for i in self.items:
            n = n + (i.length() if isinstance(i, Atom) else 1)
        return n

    def __bool__(self):
        if any(not isinstance(i, Atom) or i.nonempty for i in self.items):
            return True
        return len(self) > 0

    def __hash__(self):
        raise Unsupported("hash of symbolic %s %r" % (self.sx_type.__name__, self))

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __add__(self, o):
        b = self._coerce(o)
        if b is None:
            return NotImplemented
        return self.make(self.items + b)

    def __radd__(self, o):
        b = self._coerce(o)
        if b is None:
            return NotImplemented
        return self.make(b + self.items)

    def __mul__(self, n):
        if isinstance(n, SymInt):
            n = cur().concretize(n.e)
        return self.make(self.items * n)
    __rmul__ = __mul__

    # equality
    def eq(self, o):
        b = self._coerce(o)
        if b is None:
            return False
        return items_eq(self.items, b)

    def __eq__(self, o):
        if self._coerce(o) is None:
            if _foreign(o) and not isinstance(o, (int, float, SymInt, SymBool, SymFloat)):
                return NotImplemented
            return False
        return self.eq(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return sx_not(r)

    def _lex(self, o, strict_lt):
        b = self._coerce(o)
        if b is None:
            return None
        self._noatoms('ordering')
        a = self.items
        # lexicographic a < b (strict) / a <= b
        n = min(len(a), len(b))
        res = z3.BoolVal((len(a) < len(b)) if strict_lt else (len(a) <= len(b)))
        for i in range(n - 1, -1, -1):
            x, y = _zc(a[i]), _zc(b[i])
            res = z3.Or(x < y, z3.And(x == y, res))
        return mkbool(res)

    def __lt__(self, o):
        r = self._lex(o, True)
        return NotImplemented if r is None else r

    def __le__(self, o):
        r = self._lex(o, False)
        return NotImplemented if r is None else r

    def __gt__(self, o):
        r = self._lex(o, False)
        return NotImplemented if r is None else sx_not(r)

    def __ge__(self, o):
        r = self._lex(o, True)
        return NotImplemented if r is None else sx_not(r)

    def _slice_index(self, i):
        if isinstance(i, SymInt):
            return cur().concretize(i.e)
        return i

    def __getitem__(self, i):
        if isinstance(i, slice):
            st, sp, step = self._slice_index(i.start), self._slice_index(i.stop), self._slice_index(i.step)
            if self.has_atoms():
                return self._slice_atoms(st, sp, step)
            return self.make(self.items[st:sp:step])
        i = self._slice_index(i)
        if self.has_atoms():
            k = i if i >= 0 else len(self.items) + i
            pre = self.items[:k + 1] if i >= 0 else self.items[k:]
            if any(isinstance(x, Atom) for x in pre) or not (0 <= k < len(self.items)):
                raise Unsupported("indexing into opaque text")
        try:
            return self._wrap1(self.items[i])
        except IndexError:
            raise IndexError("string index out of range")

    def _cut(self, pos):
        """item index of character offset pos (negative: from the end); opaque fragments need a known width"""
        items = self.items
        if pos >= 0:
            o = 0
            for k, x in enumerate(items):
                if o >= pos:
                    if o > pos:
                        raise Unsupported("slice into opaque text")
                    return k
                w = 1 if not isinstance(x, Atom) else (1 if x.fixed1 else x.width)
                if w is None:
                    raise Unsupported("slice into opaque text")
                o += w
            if o > pos:
                raise Unsupported("slice into opaque text")
            return len(items)
        o = 0
        for k in range(len(items) - 1, -1, -1):
            x = items[k]
            w = 1 if not isinstance(x, Atom) else (1 if x.fixed1 else x.width)
            if w is None:
                raise Unsupported("slice into opaque text")
            o -= w
            if o <= pos:
                if o < pos:
                    raise Unsupported("slice into opaque text")
                return k
        return 0

    def _slice_atoms(self, st, sp, step):
        if step not in (None, 1):
            raise Unsupported("strided slice of opaque text")
        lo = 0 if st is None else self._cut(st)
        hi = len(self.items) if sp is None else self._cut(sp)
        return self.make(self.items[lo:hi])

    # searching ------------------------------------------------------------
    def _find_list(self, sub):
        """positions where sub may start -> list of (pos, cond)"""
        raise NotImplementedError

    def _match_at(self, sub, i):
        """condition that items[i:i+len(sub)] == sub"""
        conds = []
        for k, y in enumerate(sub):
            x = self.items[i + k]
            c = item_eq(x, y)
            if c is False:
                return False
            if c is not True:
                conds.append(c)
        if not conds:
            return True
        return SymBool(z3.And(*conds))

    def find(self, sub, start=0, end=None):
        b = self._coerce(sub)
        if b is None:
            raise TypeError("must be %s" % self.sx_type.__name__)
        if self.has_atoms() or any(isinstance(x, Atom) for x in b):
            return self._find_atoms(b, start, end)
        n = len(self.items)
        end = n if end is None else (min(end, n) if end >= 0 else max(0, n + end))
        if start < 0:
            start = max(0, n + start)
        i = start
        while i + len(b) <= end:
            if self._match_at(b, i):
                return i
            i += 1
        return -1

    def _contains_items(self, b):
        """truth of (b in self), atoms allowed when it can be decided"""
        if not b:
            return True
        items = self.items
        if any(isinstance(x, Atom) for x in b):
            for i in range(0, len(items) - len(b) + 1):
                if self._match_at(b, i):
                    return True
            return False
        if self.has_atoms():
            # concrete-ish needle in opaque haystack
            for x in items:
                if isinstance(x, Atom) and not all(_atom_excludes(x, y) for y in b):
                    if all(not _atom_excludes(x, y) for y in b) or len(b) == 1:
                        d = getattr(x, 'contains', None)
                        if d is not None:
                            if d(b):
                                return True
                            continue
                        raise Unsupported("substring search in opaque text %r" % (x,))
        for i in range(0, len(items) - len(b) + 1):
            seg = items[i:i + len(b)]
            if any(isinstance(s, Atom) for s in seg):
                continue
            if self._match_at(b, i):
                return True
        return False

    def _find_atoms(self, b, start, end):
        if start not in (0, None) or end is not None:
            raise Unsupported("find in opaque text")
        for i in range(0, len(self.items) - len(b) + 1):
            seg = self.items[i:i + len(b)]
            if any(isinstance(s, Atom) for s in seg):
                continue
            if self._match_at(b, i):
                if any(isinstance(s, Atom) for s in self.items[:i]):
                    raise Unsupported("find position after opaque text")
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rfind(self, sub, start=0, end=None):
        b = self._coerce(sub)
        self._noatoms('rfind')
        n = len(self.items)
        end = n if end is None else (min(end, n) if end >= 0 else max(0, n + end))
        i = end - len(b)
        while i >= max(0, start):
            if self._match_at(b, i):
                return i
            i -= 1
        return -1

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def __contains__(self, sub):
        b = self._coerce(sub)
        if b is None:
            if isinstance(sub, (int, SymInt)) and self.sx_type is bytes:
                b = [sub.e if isinstance(sub, SymInt) else sub]
            else:
                raise TypeError("'in <string>' requires string as left operand")
        return self._contains_items(b)

    def count(self, sub, *a):
        b = self._coerce(sub)
        self._noatoms('count')
        n, i = 0, 0
        if not b:
            return len(self.items) + 1
        while i + len(b) <= len(self.items):
            if self._match_at(b, i):
                n += 1
                i += len(b)
            else:
                i += 1
        return n

    def startswith(self, p, start=0, end=None):
        if start or end is not None:
            return self[start:end].startswith(p) if isinstance(self[start:end], SymSeq) else \
                sx_method(self[start:end], 'startswith', p)
        if isinstance(p, tuple):
            return any(bool(self.startswith(x)) for x in p)
        b = self._coerce(p)
        if b is None:
            raise TypeError('startswith first arg must be str')
        if len(b) > len(self.items):
            if self.has_atoms():
                return self._prefix_atoms(b)
            return False
        if any(isinstance(x, Atom) for x in self.items[:len(b)]):
            return self._prefix_atoms(b)
        return self._match_at(b, 0)

    def _prefix_atoms(self, b):
        for k, y in enumerate(b):
            if k >= len(self.items):
                return False
            x = self.items[k]
            if isinstance(x, Atom) and not isinstance(y, Atom):
                d = getattr(x, 'startswith', None)
                if d is not None:
                    return d(b[k:], self.items[k + 1:])
                if _atom_excludes(x, y):
                    return False
                raise Unsupported("prefix test inside opaque text")
            if not SymBool(z3.And(True, _zbool(item_eq(x, y)))):
                return False
        return True

    def endswith(self, p, start=0, end=None):
        if start or end is not None:
            raise Unsupported("endswith range")
        if isinstance(p, tuple):
            return any(bool(self.endswith(x)) for x in p)
        b = self._coerce(p)
        if len(b) > len(self.items):
            if self.has_atoms():
                raise Unsupported("suffix test inside opaque text")
            return False
        if not b:
            return True
        tail = self.items[-len(b):]
        for x, y in zip(reversed(tail), reversed(b)):
            if isinstance(x, Atom) != isinstance(y, Atom):
                at, ch = (x, y) if isinstance(x, Atom) else (y, x)
                if _atom_excludes(at, ch):
                    return False
                raise Unsupported("suffix test inside opaque text")
        return self._match_at(b, len(self.items) - len(b))

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._split_ws(maxsplit)
        b = self._coerce(sep)
        if not b:
            raise ValueError("empty separator")
        out, cur_, i, n = [], [], 0, 0
        items = self.items
        while i < len(items):
            if (maxsplit < 0 or n < maxsplit) and i + len(b) <= len(items) and \
                    self._seg_match(b, i):
                out.append(self.make(cur_))
                cur_ = []
                i += len(b)
                n += 1
            else:
                cur_.append(items[i])
                i += 1
        out.append(self.make(cur_))
        return out

    def _seg_match(self, b, i):
        for k, y in enumerate(b):
            x = self.items[i + k]
            if isinstance(x, Atom):
                if isinstance(y, Atom):
                    if not SymBool(z3.And(True, _zbool(item_eq(x, y)))):
                        return False
                    continue
                if not _atom_excludes(x, y) and self._touches(b, i + k):
                    raise Unsupported("split inside opaque text %r" % (x,))
                return False
        m = self._match_at(b, i)
        return bool(m)

    def _touches(self, b, j):
        """could an occurrence of b include a part of the opaque fragment at j"""
        at, items = self.items[j], self.items
        if at.charset is None or not all(isinstance(y, int) for y in b):
            return True

        def fits(part, i, step):
            for y in part:
                if not 0 <= i < len(items):
                    return False
                if not isinstance(items[i], int):
                    return True
                if items[i] != y:
                    return False
                i += step
            return True
        for p in range(len(b)):
            for q in range(p + 1, len(b) + 1):
                if chr(b[q - 1]) not in at.charset:
                    break
                if fits(b[:p][::-1], j - 1, -1) and fits(b[q:], j + 1, 1):
                    return True
        return False

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Unsupported("rsplit()")
        b = self._coerce(sep)
        out, items = [], self.items
        i, end, n = len(items) - len(b), len(items), 0
        while i >= 0:
            if n < maxsplit and self._seg_match(b, i):
                out.append(self.make(items[i + len(b):end]))
                end = i
                i -= len(b)
                n += 1
            else:
                i -= 1
        out.append(self.make(items[:end]))
        return out[::-1]

    def partition(self, sep):
        r = self.split(sep, 1)
        if len(r) == 1:
            return r[0], self._empty(), self._empty()
        return r[0], sep, r[1]

    def rpartition(self, sep):
        r = self.rsplit(sep, 1)
        if len(r) == 1:
            return self._empty(), self._empty(), r[0]
        return r[0], sep, r[1]

    def replace(self, old, new, count=-1):
        parts = self.split(old, count)
        return self._join(new, parts)

    def _is_ws(self, x):
        if isinstance(x, Atom):
            if not any(x.may_contain(ch) for ch in ' \t\n\r\x0b\x0c'):
                return False
            d = getattr(x, 'is_blank', None)
            if d is not None:
                return False
            raise Unsupported("white space test inside opaque text %r" % (x,))
        if self.sx_type is bytes:
            return in_ranges(x, [(9, 13), (32, 32)])
        return code_pred(x, 'isspace')

    def _strip_pred(self, chars):
        if chars is None:
            return self._is_ws
        cs = self._coerce(chars)

        def p(x):
            if isinstance(x, Atom):
                if any(not _atom_excludes(x, y) for y in cs):
                    d = getattr(x, 'strip_safe', None)
                    if d is not None:
                        return False
                    raise Unsupported("strip inside opaque text %r" % (x,))
                return False
            conds = [item_eq(x, y) for y in cs]
            if any(c is True for c in conds):
                return True
            conds = [c for c in conds if c is not False]
            return z3.Or(*conds) if conds else False
        return p

    def lstrip(self, chars=None):
        p = self._strip_pred(chars)
        i = 0
        while i < len(self.items) and _fork(p(self.items[i])):
            i += 1
        return self.make(self.items[i:])

    def rstrip(self, chars=None):
        p = self._strip_pred(chars)
        i = len(self.items)
        while i > 0 and _fork(p(self.items[i - 1])):
            i -= 1
        return self.make(self.items[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars) if isinstance(r, SymSeq) else sx_method(r, 'rstrip', *([chars] if chars is not None else []))

    def _split_ws(self, maxsplit):
        out, cur_ = [], []
        items = self.items
        i = 0
        while i < len(items):
            if _fork(self._is_ws(items[i])):
                if cur_:
                    out.append(self.make(cur_))
                    cur_ = []
                    if maxsplit >= 0 and len(out) >= maxsplit:
                        rest = self.make(items[i + 1:])
                        rest = sx_method(rest, 'lstrip')
                        if rest if not isinstance(rest, SymSeq) else True:
                            out.append(rest)
                        return out
            else:
                cur_.append(items[i])
            i += 1
        if cur_:
            out.append(self.make(cur_))
        return out

    def join(self, parts):
        return self._join(self, list(parts))

    def _join(self, sep, parts):
        out = []
        s = self._coerce(sep)
        for k, p in enumerate(parts):
            if k:
                out = out + s
            b = self._coerce(p)
            if b is None:
                raise TypeError("sequence item %d: expected str instance, %s found" % (k, type(p).__name__))
            out = out + b
        return self.make(out)

    def __repr__(self):
        out = []
        for i in self.items:
            if isinstance(i, int):
                out.append(chr(i) if self.sx_type is str else '\\x%02x' % i)
            elif isinstance(i, Atom):
                out.append('<%r>' % (i,))
            else:
                out.append('{%s}' % str(i)[:30])
        return '%s(%s)' % (type(self).__name__, ''.join(out)[:300])


def _zbool(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return x


def _fork(c):
    if isinstance(c, bool):
        return c
    if isinstance(c, SymBool):
        return bool(c)
    return cur().branch(c)


def _zc(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def _atom_excludes(at, ch):
    """True when the opaque fragment cannot contain character/item ch"""
    if at.charset is None:
        return False
    if isinstance(ch, int):
        return chr(ch) not in at.charset
    if isinstance(ch, Atom):
        return False
    conds = [ch == ord(x) for x in at.charset]
    return not cur().branch(z3.Or(*conds))


def item_eq(x, y):
    """condition (bool or z3) that two items are equal"""
    if isinstance(x, Atom) or isinstance(y, Atom):
        if isinstance(x, Atom) and isinstance(y, Atom):
            r = x.same(y)
            if isinstance(r, SymBool):
                return r.e
            return r
        return False
    if isinstance(x, int) and isinstance(y, int):
        return x == y
    return z3.simplify(_zc(x) == _zc(y))


def items_eq(a, b):
    """truth value (bool / SymBool) of equality of two item lists, opaque fragments allowed"""
    ha = any(isinstance(i, Atom) for i in a)
    hb = any(isinstance(i, Atom) for i in b)
    if not ha and not hb:
        if len(a) != len(b):
            return False
        conds = []
        for x, y in zip(a, b):
            c = item_eq(x, y)
            if c is False or z3.is_false(c) if not isinstance(c, bool) else c is False:
                return False
            if c is not True:
                conds.append(c)
        return mkbool(z3.And(*conds)) if conds else True
    return _align_eq(a, b)


def _align_eq(a, b):
    if len(a) == len(b) and all(isinstance(x, Atom) == isinstance(y, Atom) for x, y in zip(a, b)):
        # atoms and characters aligned: item-wise (exact when atoms are fixed-width or delimited)
        conds = [item_eq(x, y) for x, y in zip(a, b)]
        if any(c is False for c in conds):
            r = False
        else:
            r = mkbool(z3.And(*[_zbool(c) for c in conds]))
        return r
    # number text against characters
    for x, y in ((a, b), (b, a)):
        if len(x) == 1 and isinstance(x[0], NumAtom) and not any(isinstance(i, Atom) for i in y):
            v = _parse_int_items(y)
            if v is None:
                return False
            return x[0].v == v
    for x, y in ((a, b), (b, a)):
        if any(isinstance(i, Atom) and getattr(i, 'eq_text', None) for i in x):
            for i in x:
                if isinstance(i, Atom) and getattr(i, 'eq_text', None):
                    return i.eq_text(x, y)
    # different shapes: decide by characters that cannot occur
    for x, y in ((a, b), (b, a)):
        allowed = set()
        ok = True
        for i in x:
            if isinstance(i, Atom):
                if i.charset is None:
                    ok = False
                    break
                allowed |= set(i.charset)
            elif isinstance(i, int):
                allowed.add(chr(i))
            else:
                ok = False
                break
        if ok and any(isinstance(j, int) and chr(j) not in allowed for j in y):
            return False
    if _min_len(a) > 0 and not b or _min_len(b) > 0 and not a:
        return False
    ca = [i for i in a if isinstance(i, Atom)]
    cb = [i for i in b if isinstance(i, Atom)]
    if all(getattr(i, 'unforgeable', False) for i in ca + cb):
        # opaque ciphertexts never equal other text (free-algebra assumption)
        return False
    raise Unsupported("comparison of opaque texts %r / %r" % (a, b))


def _min_len(items):
    return sum(1 for i in items if not isinstance(i, Atom) or i.nonempty)


def _parse_int_items(y):
    """canonical decimal text items -> int value term, None when it cannot be canonical"""
    if not y:
        return None
    neg = False
    if item_eq(y[0], ord('-')) is True:
        neg = True
        y = y[1:]
        if not y:
            return None
    v = z3.IntVal(0)
    c = cur()
    for k, d in enumerate(y):
        if isinstance(d, int):
            if not 48 <= d <= 57:
                return None
        else:
            if not c.branch(z3.And(d >= 48, d <= 57)):
                return None
        if k == 0 and len(y) > 1:
            if isinstance(d, int):
                if d == 48:
                    return None
            elif c.branch(d == 48):
                return None
        v = v * 10 + (_zc(d) - 48)
    return mkint(-v if neg else v)


_LOWER_CACHE = {}


def _case_map(c, which):
    """symbolic upper()/lower() of one code; exact on ASCII and Latin-1 letters with 1:1 maps, forks otherwise"""
    if isinstance(c, int):
        return [ord(x) for x in getattr(chr(c), which)()]
    ctx = cur()
    if which == 'lower':
        if ctx.branch(z3.And(c >= 65, c <= 90)):
            return [z3.simplify(c + 32)]
    else:
        if ctx.branch(z3.And(c >= 97, c <= 122)):
            return [z3.simplify(c - 32)]
    if ctx.branch(c < 128):
        return [c]
    # non-ASCII
    key = which
    if key not in _LOWER_CACHE:
        same, start = [], None
        for cp in range(128, 0x110000):
            ok = getattr(chr(cp), which)() == chr(cp)
            if ok and start is None:
                start = cp
            elif not ok and start is not None:
                same.append((start, cp - 1))
                start = None
        if start is not None:
            same.append((start, 0x10FFFF))
        _LOWER_CACHE[key] = same
    if ctx.branch(in_ranges(c, _LOWER_CACHE[key])):
        return [c]
    raise Unsupported("case mapping of a non-ASCII letter")


class SymStr(SymSeq):
    __slots__ = ()
    sx_type = str

    @staticmethod
    def make(items):
        items = list(items)
        if all(isinstance(i, int) for i in items):
            return ''.join(map(chr, items))
        out = []
        for i in items:
            if isinstance(i, z3.AstRef):
                s = z3.simplify(i) if not z3.is_const(i) else i
                out.append(s.as_long() if z3.is_int_value(s) else s)
            else:
                out.append(i)
        if all(isinstance(i, int) for i in out):
            return ''.join(map(chr, out))
        return SymStr(out)

    @staticmethod
    def _coerce(o):
        if isinstance(o, SymStr):
            return list(o.items)
        if isinstance(o, str):
            return [ord(c) for c in o]
        return None

    def _empty(self):
        return ''

    def _wrap1(self, x):
        return SymStr.make([x])

    def _allpred(self, name):
        for i in self.items:
            if isinstance(i, Atom):
                if isinstance(i, NumAtom) and name in ('isdigit', 'isdecimal', 'isnumeric', 'isalnum'):
                    if not (i.v >= 0):
                        return False
                    continue
                d = getattr(i, 'str_pred', None)
                if d is not None:
                    if not d(name):
                        return False
                    continue
                raise Unsupported("%s on opaque text %r" % (name, i))
        conds = []
        for i in self.items:
            if isinstance(i, Atom):
                continue
            c = code_pred(i, name)
            if c is False:
                return False
            if c is not True:
                conds.append(c)
        return mkbool(z3.And(*conds)) if conds else True

    def isalpha(self):
        return self._allpred('isalpha')

    def isalnum(self):
        return self._allpred('isalnum')

    def isdigit(self):
        return self._allpred('isdigit')

    def isdecimal(self):
        return self._allpred('isdecimal')

    def isnumeric(self):
        return self._allpred('isnumeric')

    def isspace(self):
        return self._allpred('isspace')

    def isidentifier(self):
        self._noatoms('isidentifier')
        if not _fork(code_pred_ident(self.items[0], True)):
            return False
        return all(_fork(code_pred_ident(i, False)) for i in self.items[1:])

    def isupper(self):
        self._noatoms('isupper')
        some = False
        for i in self.items:
            if _fork(code_pred(i, 'islower')):
                return False
            if _fork(code_pred(i, 'isupper')):
                some = True
        return some

    def islower(self):
        self._noatoms('islower')
        some = False
        for i in self.items:
            if _fork(code_pred(i, 'isupper')):
                return False
            if _fork(code_pred(i, 'islower')):
                some = True
        return some

    def isascii(self):
        self._noatoms('isascii')
        return mkbool(z3.And(*[_zc(i) < 128 for i in self.items]))

    def isprintable(self):
        return self._allpred('isprintable')

    def _casemap(self, which):
        out = []
        for i in self.items:
            if isinstance(i, Atom):
                d = getattr(i, 'casemap', None)
                if isinstance(i, NumAtom):
                    out.append(i)
                elif d is not None:
                    out.append(d(which))
                else:
                    raise Unsupported("%s() on opaque text %r" % (which, i))
            else:
                out.extend(_case_map(i, which))
        return SymStr.make(out)

    def lower(self):
        return self._casemap('lower')

    def upper(self):
        return self._casemap('upper')

    def casefold(self):
        return self._casemap('lower')

    def capitalize(self):
        a, b = self[:1], self[1:]
        return sx_method(a, 'upper') + sx_method(b, 'lower')

    def title(self):
        raise Unsupported("title()")

    def splitlines(self, keepends=False):
        self._noatoms('splitlines')
        out, cur_ = [], []
        items = self.items
        i = 0
        while i < len(items):
            x = items[i]
            if _fork(in_ranges(x, [(10, 13), (0x1c, 0x1e), (0x85, 0x85), (0x2028, 0x2029)])):
                eol = [x]
                if _fork(_zbool(item_eq(x, 13))) and i + 1 < len(items) and _fork(_zbool(item_eq(items[i + 1], 10))):
                    eol.append(items[i + 1])
                out.append(SymStr.make(cur_ + (eol if keepends else [])))
                cur_ = []
                i += len(eol)
            else:
                cur_.append(x)
                i += 1
        if cur_:
            out.append(SymStr.make(cur_))
        return out

    def zfill(self, n):
        self._noatoms('zfill')
        return '0' * max(0, n - len(self.items)) + self

    def ljust(self, n, fill=' '):
        return self + fill * max(0, n - len(self))

    def rjust(self, n, fill=' '):
        return fill * max(0, n - len(self)) + self

    def center(self, n, fill=' '):
        raise Unsupported("center")

    def expandtabs(self, *a):
        raise Unsupported("expandtabs")

    def translate(self, table):
        self._noatoms('translate')
        out = []
        for i in self.items:
            hit = False
            for k, v in table.items():
                if _fork(_zbool(item_eq(i, k))):
                    hit = True
                    if v is None:
                        pass
                    elif isinstance(v, int):
                        out.append(v)
                    else:
                        out.extend(ord(c) for c in v)
                    break
            if not hit:
                out.append(i)
        return SymStr.make(out)

    def format(self, *a, **k):
        raise Unsupported("symbolic format string")

    def encode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        if enc in ('utf-8', 'utf8'):
            out = []
            for c in self.items:
                if isinstance(c, Atom):
                    out.append(c)
                    continue
                out.extend(utf8_items(c))
            return SymBytes.make(out)
        if enc in ('ascii', 'latin-1', 'latin1'):
            lim = 128 if enc == 'ascii' else 256
            for c in self.items:
                if not isinstance(c, Atom) and not _fork(_zc(c) < lim if not isinstance(c, int) else c < lim):
                    raise UnicodeEncodeError(enc, '?', 0, 1, 'ordinal not in range')
            return SymBytes.make(self.items)
        raise Unsupported("encode %s" % encoding)

    def __mod__(self, args):
        raise Unsupported("symbolic % format string")

    def __str__(self):
        raise Unsupported("str() on SymStr outside instrumented code")

    def __format__(self, spec):
        raise Unsupported("format() on SymStr outside instrumented code")

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if p and self.endswith(p) else self


_IDENT = {}


def code_pred_ident(c, start):
    if isinstance(c, int):
        return chr(c).isidentifier() if start else ('a' + chr(c)).isidentifier()
    if start not in _IDENT:
        out, st = [], None
        for cp in range(0x110000):
            if 0xD800 <= cp <= 0xDFFF:
                ok = False
            else:
                ok = chr(cp).isidentifier() if start else ('a' + chr(cp)).isidentifier()
            if ok and st is None:
                st = cp
            elif not ok and st is not None:
                out.append((st, cp - 1))
                st = None
        _IDENT[start] = out
    hi = getattr(cur(), 'max_code', None)
    r = _IDENT[start]
    if hi is not None:
        r = [(a, min(b, hi)) for a, b in r if a <= hi]
    return in_ranges(c, r)


def utf8_items(c):
    if isinstance(c, int):
        return list(chr(c).encode('utf-8'))
    ctx = cur()
    if ctx.branch(c < 0x80):
        return [c]
    if ctx.branch(c < 0x800):
        return [0xC0 + c / 64, 0x80 + c % 64]
    if ctx.branch(c < 0x10000):
        return [0xE0 + c / 4096, 0x80 + (c / 64) % 64, 0x80 + c % 64]
    return [0xF0 + c / 262144, 0x80 + (c / 4096) % 64, 0x80 + (c / 64) % 64, 0x80 + c % 64]


class SymBytes(SymSeq):
    __slots__ = ()
    sx_type = bytes

    @staticmethod
    def make(items):
        out = []
        for i in items:
            if isinstance(i, SymInt):
                i = i.e
            if isinstance(i, z3.AstRef):
                s = z3.simplify(i) if not z3.is_const(i) else i
                out.append(s.as_long() if z3.is_int_value(s) else s)
            else:
                out.append(i)
        if all(isinstance(i, int) for i in out):
            return bytes(out)
        return SymBytes(out)

    @staticmethod
    def _coerce(o):
        if isinstance(o, SymBytes):
            return list(o.items)
        if isinstance(o, (bytes, bytearray)):
            return list(o)
        return None

    def _empty(self):
        return b''

    def _wrap1(self, x):
        return mkint(x) if _isz(x) else x

    def decode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        if enc in ('utf-8', 'utf8'):
            return SymStr.make(utf8_decode_items(self.items))
        if enc in ('ascii',):
            for c in self.items:
                if not isinstance(c, Atom) and not _fork(_zc(c) < 128 if not isinstance(c, int) else c < 128):
                    raise UnicodeDecodeError(enc, b'?', 0, 1, 'ordinal not in range')
            return SymStr.make(self.items)
        if enc in ('latin-1', 'latin1'):
            return SymStr.make(self.items)
        raise Unsupported("decode %s" % encoding)

    def hex(self):
        out = []
        for b in self.items:
            if isinstance(b, Atom):
                out.append(HexAtom(b))
                continue
            for nib in ((b / 16, b % 16) if _isz(b) else (b // 16, b % 16)):
                out.append(_hexdigit(nib))
        return SymStr.make(out)

    def __bytes__(self):
        raise Unsupported("bytes() outside instrumented code")


class HexAtom(Atom):
    charset = frozenset('0123456789abcdef')
    unforgeable = True

    def __init__(self, src):
        self.src = src

    def same(self, o):
        return self.src.same(o.src) if isinstance(o, HexAtom) else False

    def length(self):
        if self.src.width is None:
            raise Unsupported("length of opaque text %r" % (self,))
        return 2 * self.src.width

    def __repr__(self):
        return 'hex(%r)' % (self.src,)


def _hexdigit(n):
    if isinstance(n, int):
        return ord('0123456789abcdef'[n])
    return z3.If(n < 10, n + 48, n + 87)


def _bad_utf8():
    raise UnicodeDecodeError('utf-8', b'?', 0, 1, 'invalid start byte')


def utf8_decode_items(items):
    ctx = cur()
    out, i, n = [], 0, len(items)

    def cont(k):
        if k >= n or isinstance(items[k], Atom):
            _bad_utf8()
        x = _zc(items[k])
        if not ctx.branch(z3.And(x >= 0x80, x <= 0xBF)):
            _bad_utf8()
        return x - 0x80
    while i < n:
        b = items[i]
        if isinstance(b, Atom):
            out.append(b)
            i += 1
            continue
        z = _zc(b)
        if ctx.branch(z < 0x80):
            out.append(b)
            i += 1
        elif ctx.branch(z < 0xC2):
            _bad_utf8()
        elif ctx.branch(z < 0xE0):
            out.append(z3.simplify((z - 0xC0) * 64 + cont(i + 1)))
            i += 2
        elif ctx.branch(z < 0xF0):
            v = z3.simplify((z - 0xE0) * 4096 + cont(i + 1) * 64 + cont(i + 2))
            if ctx.branch(z3.Or(v < 0x800, z3.And(v >= 0xD800, v <= 0xDFFF))):
                _bad_utf8()
            out.append(v)
            i += 3
        elif ctx.branch(z < 0xF5):
            v = z3.simplify((z - 0xF0) * 262144 + cont(i + 1) * 4096 + cont(i + 2) * 64 + cont(i + 3))
            if ctx.branch(z3.Or(v < 0x10000, v > 0x10FFFF)):
                _bad_utf8()
            out.append(v)
            i += 4
        else:
            _bad_utf8()
    return out


SYM = (SymBool, SymInt, SymFloat, SymDec, SymStr, SymBytes)
SYMSET = frozenset(SYM)


def is_sym(x):
    return type(x) in SYMSET


def deep_sym(x, depth=4):
    t = type(x)
    if t in SYMSET:
        return True
    if depth and t in (list, tuple, set, frozenset):
        return any(deep_sym(i, depth - 1) for i in x)
    if depth and t is dict:
        return any(deep_sym(i, depth - 1) or deep_sym(k, depth - 1) for k, i in x.items())
    return False


def sx_method(obj, name, *a):
    """Call a str/bytes method on a value that may be concrete with possibly symbolic arguments."""
    if isinstance(obj, (str, bytes)) and any(deep_sym(x) for x in a):
        from .instrument import call
        return call(getattr(obj, name), *a)
    return getattr(obj, name)(*a)


def to_concrete(v, m):
    """Value of v under model m (None: no symbolic parts expected)."""
    t = type(v)
    if t is SymBool:
        return z3.is_true(m.eval(v.e, model_completion=True))
    if t is SymInt:
        return m.eval(v.e, model_completion=True).as_long()
    if t is SymFloat:
        q = m.eval(v.e, model_completion=True)
        try:
            return float(q.as_fraction())
        except Exception:
            return float(q.approx(20).as_fraction())
    if t is SymStr or t is SymBytes:
        out = []
        for i in v.items:
            if isinstance(i, int):
                out.append(chr(i) if t is SymStr else bytes([i]))
            elif isinstance(i, Atom):
                out.append(i.concrete(m))
            else:
                n = m.eval(i, model_completion=True).as_long()
                out.append(chr(n) if t is SymStr else bytes([n]))
        return ''.join(out) if t is SymStr else b''.join(out)
    if isinstance(v, z3.AstRef):
        return m.eval(v, model_completion=True)
    if t is list:
        return [to_concrete(x, m) for x in v]
    if t is tuple:
        return tuple(to_concrete(x, m) for x in v)
    if t is dict:
        return {to_concrete(k, m): to_concrete(x, m) for k, x in v.items()}
    return v
