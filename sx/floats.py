"""Symbolic floats.

Bits   : an opaque IEEE double (8 symbolic bytes); only moved, never computed with.
SymFloat: num * q with an explicit bound on the accumulated rounding error, where
         num is a symbolic integer and q an exact rational; `fn` recomputes the
         real double for a concrete num, so that questions the error bound cannot
         settle are answered on the real arithmetic.
Ang    : degrees/radians of atan2(num, den), only consumed by tan().
"""
from __future__ import annotations

import math
from fractions import Fraction

import z3

from sx.core import Inconclusive, SymBool, SymInt, and_, eng, ite, is_intlike, mkbool, not_

EPS = Fraction(1, 2**53)


class SymFloatBase:
    _sx_sym = True

    @property
    def __class__(self):
        return float

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "<symfloat>"

    def __hash__(self):
        raise Inconclusive("hash of symbolic float")

    def __ne__(self, o):
        return not_(self == o)


class Bits(SymFloatBase):
    def __init__(self, cells):
        self.cells = cells  # little endian

    def __eq__(self, o):
        """Bitwise identity (stronger than IEEE equality; NaN equals itself)."""
        from sx.seqs import cells_eq

        if isinstance(o, Bits):
            return cells_eq(self.cells, o.cells)
        if type(o) is float:
            import struct

            return cells_eq(self.cells, list(struct.pack("<d", o)))
        return False

    __hash__ = SymFloatBase.__hash__

    def _no(self, *a):
        raise Inconclusive("arithmetic on an opaque double")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _no
    __truediv__ = __rtruediv__ = __lt__ = __le__ = __gt__ = __ge__ = _no
    __round__ = __int__ = __float__ = __bool__ = __neg__ = __abs__ = _no
    __trunc__ = __floor__ = __ceil__ = __index__ = _no

    def is_integer(self):
        return self._no()


def from_int(x):
    if type(x) is SymFloat:
        return x
    if isinstance(x, SymFloatBase):
        return x
    if type(x) is SymBool:
        x = x._int()
    if type(x) is SymInt:
        if max(abs(x.lo), abs(x.hi)) > 2**53:
            return SymFloat(x, Fraction(1), EPS * max(abs(x.lo), abs(x.hi)), float, ("int",))
        return SymFloat(x, Fraction(1), Fraction(0), float, ("int",))
    return float(x)


class SymFloat(SymFloatBase):
    """value = num*q + d, |d| <= err."""

    def __init__(self, num, q, err, fn, sig):
        self.num, self.q, self.err, self.fn, self.sig = num, q, err, fn, sig

    def _mag(self):
        return max(abs(self.num.lo), abs(self.num.hi)) * abs(self.q)

    def _pow2(self, f):
        n = abs(f.numerator)
        d = f.denominator
        return (n & (n - 1)) == 0 and (d & (d - 1)) == 0

    def _dyadic(self, f):
        d = f.denominator
        return (d & (d - 1)) == 0

    def _scale(self, c, fn, name):
        """Multiply by the exact rational c (rounded once)."""
        q = self.q * c
        err = self.err * abs(c)
        if not (self._pow2(c)):
            mag = self._mag() * abs(c) + err
            # a dyadic result with at most 53 bits is exact
            exact = (
                err == 0 and self._dyadic(self.q) and self._dyadic(c) and mag < 2**900
                and q.denominator < 2**900
                and max(abs(self.num.lo), abs(self.num.hi)) * abs(q.numerator) < 2**53
            )
            if not exact:
                err += mag * EPS
        f = self.fn
        return SymFloat(self.num, q, err, lambda v: fn(f(v)), self.sig + (name,))

    def concrete(self):
        g = eng()
        n = g.path_data.setdefault("float_pick", 0)
        for i in range(48):
            m = g.pick_value(self.num.e)
            if g.branch(self.num.e == m):
                return self.fn(m.as_signed_long())
        g.incomplete = "float arithmetic sampled beyond its error bound"
        from sx.core import PathAbort

        raise PathAbort("float sample limit")

    def __mul__(self, o):
        if isinstance(o, SymFloatBase) or type(o) is SymInt:
            return NotImplemented if not isinstance(o, SymFloatBase) and type(o) is not SymInt else self.concrete() * _conc(o)
        if not isinstance(o, (int, float)):
            return NotImplemented
        return self._scale(Fraction(o), lambda x: x * o, ("mul", o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, SymFloatBase) or type(o) is SymInt:
            return self.concrete() / _conc(o)
        if not isinstance(o, (int, float)):
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError("division by zero")
        r = self._scale(1 / Fraction(o), lambda x: x / o, ("div", o))
        # division by a non power of two is inexact even for exact integers
        if self.err == 0 and r.err == 0 and not self._pow2(Fraction(o)):
            r.err = r._mag() * EPS
        return r

    def __rtruediv__(self, o):
        return o / self.concrete()

    def __add__(self, o):
        if not isinstance(o, (int, float)):
            return NotImplemented
        if isinstance(o, (int, float)) and not isinstance(o, (SymFloatBase, SymInt)) and o == 0:
            return self
        if type(o) is SymInt and self.err == 0 and self.q == 1:
            s = self.num + o
            return from_int(s)
        if type(o) is SymInt and self.err == 0 and max(abs(o.lo), abs(o.hi)) < 2**53:
            o = from_int(o)
        if isinstance(o, SymFloat) and self.err == o.err == 0 and self._dyadic(self.q) and self._dyadic(o.q):
            den = max(self.q.denominator, o.q.denominator)
            s = self.num * int(self.q * den) + o.num * int(o.q * den)
            if type(s) is not SymInt:
                return float(Fraction(s, den))
            if max(abs(s.lo), abs(s.hi)) < 2**53 and den < 2**900:
                q = Fraction(1, den)
                return SymFloat(s, q, Fraction(0), lambda v: float(Fraction(v) * q), ("lin", q))
        if (
            self.err == 0
            and self._pow2(self.q)
            and isinstance(o, (int, float))
            and not isinstance(o, SymFloatBase)
            and type(o) is not SymInt
        ):
            # value = num*2^-k exactly; adding a dyadic constant stays exact
            fo = Fraction(o)
            den = max(self.q.denominator, fo.denominator)
            s = self.num * int(self.q * den) + int(fo * den)
            if type(s) is SymInt and max(abs(s.lo), abs(s.hi)) < 2**53:
                return SymFloat(s, Fraction(1, den), Fraction(0), lambda v: v / den, ("lin", den))
            if type(s) is not SymInt:
                return s / den
        return self.concrete() + _conc(o)

    __radd__ = __add__

    def __neg__(self):
        f = self.fn
        return SymFloat(self.num, -self.q, self.err, lambda v: -f(v), self.sig + ("neg",))

    def __pos__(self):
        return self

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __abs__(self):
        if self < 0:
            return -self
        return self

    def __pow__(self, o):
        return self.concrete() ** o

    # -- rounding
    def _exact_int(self):
        """num*q as an integer expression, or None."""
        if self.q.denominator == 1:
            return self.num * self.q.numerator
        return None

    def __round__(self, n=None):
        if n and n > 0 and self.err == 0 and 10**n % self.q.denominator == 0 and self._mag() < 2**40:
            return self  # no more than n decimals anyway
        if n:
            return round(self.concrete(), n)
        x = self._exact_int()
        if x is not None and self.err < Fraction(1, 2):
            r = x
        elif self.err == 0:
            p, d = self.q.numerator, self.q.denominator
            a = self.num * p  # a/d
            fl = (2 * a + d) // (2 * d)  # floor(a/d + 1/2)
            tie = ((2 * a + d) % (2 * d)) == 0
            r = ite(and_(tie, (fl % 2) == 1), fl - 1, fl)
        else:
            p, d = self.q.numerator, self.q.denominator
            # distance from a tie is a multiple of 1/(2d)
            if self.err < Fraction(1, 2 * d):
                a = self.num * p
                tie = ((2 * a + d) % (2 * d)) == 0
                if tie:
                    return round(self.concrete())
                r = (2 * a + d) // (2 * d)
            else:
                return round(self.concrete())
        return from_int(r) if n is not None else r

    def _floorlike(self, pyfn, exact):
        if self.err == 0:
            p, d = self.q.numerator, self.q.denominator
            return exact(self.num * p, d)
        d = self.q.denominator
        if self.err < Fraction(1, d):
            a = self.num * self.q.numerator
            if (a % d) == 0:
                return pyfn(self.concrete())
            return exact(a, d)
        return pyfn(self.concrete())

    def __trunc__(self):
        return self._floorlike(
            math.trunc, lambda a, d: ite(a >= 0, a // d, -((-a) // d))
        )

    def to_int(self):
        return self.__trunc__()

    def __floor__(self):
        return self._floorlike(math.floor, lambda a, d: a // d)

    def __ceil__(self):
        return self._floorlike(math.ceil, lambda a, d: -((-a) // d))

    def __floordiv__(self, o):
        return self.concrete() // _conc(o)

    def __mod__(self, o):
        return self.concrete() % _conc(o)

    def __int__(self):
        return int(self.concrete())

    def __float__(self):
        return self.concrete()

    def __bool__(self):
        return bool(self.num != 0)

    def is_integer(self):
        if self.err == 0:
            return bool(((self.num * self.q.numerator) % self.q.denominator) == 0)
        return self.concrete().is_integer()

    def __str__(self):
        return str(self.concrete())

    def __format__(self, spec):
        return format(self.concrete(), spec)

    # -- comparison
    def _cmp(self, o, op):
        import operator

        f = getattr(operator, op)
        if isinstance(o, SymFloat) and o.num is self.num and o.sig == self.sig:
            return op in ("eq", "le", "ge")
        if isinstance(o, SymFloat):
            if self.err == 0 and o.err == 0:
                l = self.num * (self.q.numerator * o.q.denominator)
                r = o.num * (o.q.numerator * self.q.denominator)
                return f(l, r)
            if self.q == o.q and self.sig == o.sig:
                # same function of different integers; injective when the error
                # is below half the spacing
                if op in ("eq", "ne") and 2 * self.err < abs(self.q) and 2 * o.err < abs(o.q):
                    # equal nums give equal floats, different nums differ
                    return f(self.num, o.num)
            return f(self.concrete(), o.concrete())
        if type(o) is SymInt:
            if self.err == 0:
                return f(self.num * self.q.numerator, o * self.q.denominator)
            if self.q.denominator == 1 and self.err < Fraction(1, 2) and op in ("lt", "gt"):
                pass
            return f(self.concrete(), o.concretize())
        if isinstance(o, (int, float)):
            if isinstance(o, float) and not math.isfinite(o):
                return f(0.0, o)
            c = Fraction(o)
            l = self.num * (self.q.numerator * c.denominator)
            r = c.numerator * self.q.denominator
            if self.err == 0:
                return f(l, r)
            # |value - o| * scale > err*scale decides
            scale = c.denominator * self.q.denominator
            m = self.err * scale
            mi = int(m) + 1
            if abs(l - r) > mi:
                return f(l, r)
            return f(self.concrete(), o)
        return NotImplemented

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        return self._cmp(o, "ne")

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    __hash__ = SymFloatBase.__hash__


def _conc(o):
    if isinstance(o, SymFloat):
        return o.concrete()
    if type(o) is SymInt:
        return o.concretize()
    return o


class Ang(SymFloatBase):
    """fn(num): an angle in degrees or radians derived from atan2(num, den)."""

    def __init__(self, num, den, deg, delta, fn, sig):
        self.num, self.den, self.deg, self.delta, self.fn, self.sig = (
            num, den, deg, delta, fn, sig,
        )

    def __eq__(self, o):
        if isinstance(o, Ang) and self.sig == o.sig:
            # same deterministic function of the integers; equal nums -> equal.
            # distinct nums may collide only by rounding: treated as different
            return self.num == o.num
        if isinstance(o, Ang):
            return self._c() == o._c()
        if isinstance(o, (int, float)):
            if o == 0:
                return self.num == 0
            return self._c() == o
        return False

    __hash__ = SymFloatBase.__hash__

    def _c(self):
        return SymFloat(self.num, Fraction(1), Fraction(0), self.fn, self.sig).concrete()

    def _op(name):
        import operator

        f = getattr(operator, name)

        def m(self, *a):
            return f(self._c(), *[x._c() if isinstance(x, Ang) else _conc(x) for x in a])

        return m

    __add__ = _op("add")
    __sub__ = _op("sub")
    __mul__ = _op("mul")
    __truediv__ = _op("truediv")
    __lt__ = _op("lt")
    __le__ = _op("le")
    __gt__ = _op("gt")
    __ge__ = _op("ge")

    def __radd__(self, o):
        return o + self._c()

    def __rsub__(self, o):
        return o - self._c()

    def __rmul__(self, o):
        return o * self._c()

    def __neg__(self):
        f = self.fn
        return Ang(-self.num, self.den, self.deg, self.delta, lambda v: f(v), self.sig + ("neg",))

    def __round__(self, n=None):
        return round(self._c(), n)

    def __trunc__(self):
        return math.trunc(self._c())

    def __float__(self):
        return self._c()

    def __bool__(self):
        return bool(self.num != 0)


def m_atan2(y, x):
    if type(y) is SymInt and not isinstance(x, SymFloatBase) and type(x) is not SymInt and x > 0:
        # |theta| <= pi/2; libm error taken as <= 2 ulp of pi/2
        return Ang(y, x, False, Fraction(1, 2**51), lambda v: math.atan2(v, x), ("atan2", x))
    return math.atan2(_conc(y), _conc(x))


def m_degrees(a):
    if isinstance(a, Ang) and not a.deg:
        f = a.fn
        return Ang(a.num, a.den, True, a.delta + Fraction(1, 2**50), lambda v: math.degrees(f(v)), a.sig + ("deg",))
    return math.degrees(a._c() if isinstance(a, Ang) else _conc(a))


def m_radians(a):
    if isinstance(a, Ang) and a.deg:
        f = a.fn
        return Ang(a.num, a.den, False, a.delta + Fraction(1, 2**50), lambda v: math.radians(f(v)), a.sig + ("rad",))
    return math.radians(a._c() if isinstance(a, Ang) else _conc(a))


def m_tan(a):
    if isinstance(a, Ang) and not a.deg:
        tmax = Fraction(max(abs(a.num.lo), abs(a.num.hi)), 1) / Fraction(a.den)
        # tan(theta + d) - tan(theta) <= d (1 + t'^2), t' <= 1.01 tmax + 1
        t = tmax * Fraction(101, 100) + 1
        err = a.delta * (1 + t * t) + 2 * EPS * t
        f = a.fn
        return SymFloat(a.num, 1 / Fraction(a.den), err, lambda v: math.tan(f(v)), a.sig + ("tan",))
    return math.tan(a._c() if isinstance(a, Ang) else _conc(a))
