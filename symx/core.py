"""Symbolic values and the path-exploration engine.

Values
------
SymReal   exact (extended) real: n/d with optional nan/+inf/-inf conditions.
          `n` is a Fraction (constant fast path) or a z3 Real term.
SymInt    mathematical integer (z3 Int term).
SymBool   z3 Bool term; truth-testing one forks the path.

The engine re-executes the harness once per path.  A fork asks z3 which sides
are feasible under the path condition; obligations (``Engine.obligation``) ask
z3 for a model of `path condition and not property`.
"""

import builtins
import time
from fractions import Fraction

import z3

_float = builtins.float
_int = builtins.int
_isinstance = builtins.isinstance


class Control(BaseException):
    """Base of exceptions that steer the engine (never a program exception)."""


class Unsupported(Control):
    """The code did something which the encoding does not model."""


class PathInfeasible(Control):
    """The current path condition is unsatisfiable (or was assumed away)."""


class PathBudget(Control):
    """A per-path budget (forks, time) was exhausted."""


ENGINE = None


def engine():
    return ENGINE


def set_engine(e):
    global ENGINE
    ENGINE = e


def fr(v):
    """Exact rational of a concrete number. Floats are read as the decimal
    number they print as, ie. program literals mean what is written."""
    if _isinstance(v, Fraction):
        return v
    if _isinstance(v, bool):
        return Fraction(_int(v))
    if _isinstance(v, _int):
        return Fraction(v)
    return Fraction(repr(_float(v)))


def rv(q):
    return z3.RealVal(str(q)) if q.denominator != 1 else z3.RealVal(q.numerator)


# ---------------------------------------------------------------------------
# boolean helpers over python bools and z3 bools
# ---------------------------------------------------------------------------

def b_not(a):
    if a is True:
        return False
    if a is False:
        return True
    return z3.Not(a)


def b_and(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def b_or(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def b_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    return b_or(b_and(c, a), b_and(b_not(c), b))


def to_b(x):
    """python bool / z3 Bool of any truthy value."""
    if _isinstance(x, SymBool):
        return x.c
    if x is True or x is False:
        return x
    if _isinstance(x, z3.BoolRef):
        return x
    return bool(x)


# ---------------------------------------------------------------------------

class SymBool(object):
    __slots__ = ('c',)
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    __array_priority__ = -1000

    def __init__(self, c):
        if _isinstance(c, SymBool):
            c = c.c
        self.c = c

    @property
    def const(self):
        return self.c is True or self.c is False

    def __bool__(self):
        if self.c is True or self.c is False:
            return self.c
        return ENGINE.fork(self.c)

    def _co(self, o):
        if _isinstance(o, SymBool):
            return o.c
        if _isinstance(o, bool) or type(o).__name__ in ('bool_',):
            return bool(o)
        return None

    def __and__(self, o):
        c = self._co(o)
        if c is None:
            return NotImplemented
        return SymBool(b_and(self.c, c))
    __rand__ = __and__

    def __or__(self, o):
        c = self._co(o)
        if c is None:
            return NotImplemented
        return SymBool(b_or(self.c, c))
    __ror__ = __or__

    def __xor__(self, o):
        c = self._co(o)
        if c is None:
            return NotImplemented
        return SymBool(b_or(b_and(self.c, b_not(c)), b_and(b_not(self.c), c)))
    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(b_not(self.c))

    logical_not = __invert__

    def __eq__(self, o):
        c = self._co(o)
        if c is None:
            if o is None or _isinstance(o, str):
                return False
            return self.as_int() == o
        return ~(self ^ SymBool(c))

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if _isinstance(r, bool) else ~r

    __hash__ = None

    def as_int(self):
        if self.const:
            return SymInt(1 if self.c else 0)
        return SymInt(z3.If(self.c, z3.IntVal(1), z3.IntVal(0)))

    def __int__(self):
        return 1 if bool(self) else 0
    __index__ = __int__

    def __float__(self):
        return 1.0 if bool(self) else 0.0

    def __add__(self, o): return self.as_int() + (o.as_int() if _isinstance(o, SymBool) else o)
    def __radd__(self, o): return o + self.as_int()
    def __sub__(self, o): return self.as_int() - (o.as_int() if _isinstance(o, SymBool) else o)
    def __rsub__(self, o): return o - self.as_int()
    def __mul__(self, o): return self.as_int() * (o.as_int() if _isinstance(o, SymBool) else o)
    def __rmul__(self, o): return self.as_int() * o
    def __lt__(self, o): return self.as_int() < (o.as_int() if _isinstance(o, SymBool) else o)
    def __le__(self, o): return self.as_int() <= (o.as_int() if _isinstance(o, SymBool) else o)
    def __gt__(self, o): return self.as_int() > (o.as_int() if _isinstance(o, SymBool) else o)
    def __ge__(self, o): return self.as_int() >= (o.as_int() if _isinstance(o, SymBool) else o)
    def __neg__(self): return -self.as_int()
    def __abs__(self): return self.as_int()

    def __repr__(self):
        return 'SymBool(%s)' % (self.c,)

    # numpy scalar-like API
    def all(self, *a, **k): return self
    def any(self, *a, **k): return self
    def item(self): return self


def is_num(x):
    import numpy as np
    return _isinstance(x, (_int, _float, Fraction, np.integer, np.floating)) and not _isinstance(x, (bool,))


# ---------------------------------------------------------------------------

class SymInt(object):
    __slots__ = ('t',)
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    __array_priority__ = -1000

    def __init__(self, t):
        if _isinstance(t, SymInt):
            t = t.t
        if _isinstance(t, bool):
            t = _int(t)
        if z3.is_int_value(t) if not _isinstance(t, _int) else False:
            t = t.as_long()
        self.t = t

    @property
    def const(self):
        return _isinstance(self.t, _int)

    def z(self):
        return z3.IntVal(self.t) if self.const else self.t

    def real(self):
        if self.const:
            return SymReal(Fraction(self.t))
        return SymReal(z3.ToReal(self.t))

    @staticmethod
    def _co(o):
        import numpy as np
        if _isinstance(o, SymInt):
            return o
        if _isinstance(o, SymBool):
            return o.as_int()
        if _isinstance(o, (bool, _int, np.integer, np.bool_)):
            return SymInt(_int(o))
        return None

    def _bin(self, o, f, fr_):
        c = self._co(o)
        if c is None:
            if _isinstance(o, SymReal) or is_num(o):
                return fr_(self.real(), o)
            return NotImplemented
        if self.const and c.const:
            return SymInt(f(self.t, c.t))
        return SymInt(f(self.z(), c.z()))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)
    def __rsub__(self, o): return (-self) + o
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return SymInt(-self.t)
    def __pos__(self): return self

    def __abs__(self):
        if self.const:
            return SymInt(abs(self.t))
        return SymInt(z3.If(self.t >= 0, self.t, -self.t))

    def __truediv__(self, o):
        c = self._co(o)
        if c is not None:
            return self.real().as_py() / c.real().as_py()
        if _isinstance(o, SymReal) or is_num(o):
            return self.real() / o
        return NotImplemented

    def __rtruediv__(self, o):
        if is_num(o):
            return SymReal(fr(o)).as_py() / self.real().as_py()
        return NotImplemented

    def _divmod(self, c):
        """floor division and modulo, python semantics."""
        if bool(c == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        if self.const and c.const:
            return SymInt(self.t // c.t), SymInt(self.t % c.t)
        # z3: remainder is in [0, |c|)
        q, r = self.z() / c.z(), self.z() % c.z()
        if c.const and c.t > 0:
            return SymInt(q), SymInt(r)
        neg = z3.And(c.z() < 0, r != 0)
        # a = c*q + r, python wants r' = r + c (<=0), q' = q + ... for c < 0
        return SymInt(z3.If(neg, q - 1, q)), SymInt(z3.If(neg, r + c.z(), r))

    def __floordiv__(self, o):
        c = self._co(o)
        if c is None:
            return self.real() // o
        return self._divmod(c)[0]

    def __rfloordiv__(self, o):
        c = self._co(o)
        if c is None:
            return SymReal(fr(o)) // self.real()
        return c._divmod(self)[0]

    def __mod__(self, o):
        c = self._co(o)
        if c is None:
            return self.real() % o
        return self._divmod(c)[1]

    def __rmod__(self, o):
        c = self._co(o)
        if c is None:
            return NotImplemented
        return c._divmod(self)[1]

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, n):
        if _isinstance(n, _int) and n >= 0:
            r = SymInt(1)
            for _ in range(n):
                r = r * self
            return r
        return self.real() ** n

    def _cmp(self, o, f):
        c = self._co(o)
        if c is None:
            if _isinstance(o, SymReal) or is_num(o):
                return f(self.real(), o if _isinstance(o, SymReal) else SymReal.of(o))
            return NotImplemented
        if self.const and c.const:
            return SymBool(bool(f(self.t, c.t)))
        return SymBool(f(self.z(), c.z()))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __hash__(self):
        return hash(self.__index__())

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        if self.const:
            return self.t
        return ENGINE.concretize_int(self.t)

    __int__ = __index__

    def sym_int(self):
        return self

    def __float__(self):
        return _float(self.__index__())

    def __round__(self, nd=None): return self
    def __floor__(self): return self
    def __ceil__(self): return self
    def __trunc__(self): return self

    def __format__(self, spec):
        if self.const:
            return format(self.t, spec)
        return ENGINE.marker(self, spec + 'd' if spec == '' or spec[-1].isdigit() else spec)

    def __str__(self):
        if self.const:
            return str(self.t)
        return str(self.__index__())

    def __repr__(self):
        return 'SymInt(%s)' % (self.t,)

    def item(self): return self

    def __getattr__(self, name):
        return getattr(self.real(), name)


# ---------------------------------------------------------------------------

class SymReal(object):
    """Extended real number n/d; nan/pinf/ninf are the conditions under which
    the value is that special instead (mutually exclusive)."""

    __slots__ = ('n', 'd', 'nan', 'pinf', 'ninf', 'py')
    __array_priority__ = -1000
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, n, d=None, nan=False, pinf=False, ninf=False, py=False):
        self.n = n
        self.d = d
        self.nan = nan
        self.pinf = pinf
        self.ninf = ninf
        self.py = py

    # -- construction -----------------------------------------------------
    @staticmethod
    def of(v):
        """Coerce a number to SymReal; None if it is not a number."""
        if _isinstance(v, SymReal):
            return v
        if _isinstance(v, SymInt):
            return v.real()
        if _isinstance(v, SymBool):
            return v.as_int().real()
        if _isinstance(v, Fraction):
            return SymReal(v)
        import numpy as np
        if _isinstance(v, (bool, np.bool_)):
            return SymReal(Fraction(_int(v)))
        if _isinstance(v, (_int, np.integer)):
            return SymReal(Fraction(_int(v)))
        if _isinstance(v, (_float, np.floating)):
            v = _float(v)
            if v != v:
                return SymReal(Fraction(0), nan=True)
            if v == _float('inf'):
                return SymReal(Fraction(0), pinf=True)
            if v == -_float('inf'):
                return SymReal(Fraction(0), ninf=True)
            return SymReal(fr(v), py=not _isinstance(v, np.floating))
        if _isinstance(v, np.ndarray) and v.ndim == 0:
            return SymReal.of(v[()])
        return None

    def as_py(self):
        if self.py:
            return self
        return SymReal(self.n, self.d, self.nan, self.pinf, self.ninf, True)

    def as_np(self):
        if not self.py:
            return self
        return SymReal(self.n, self.d, self.nan, self.pinf, self.ninf, False)

    # -- inspection -------------------------------------------------------
    @property
    def clean(self):
        """No special values possible."""
        return self.nan is False and self.pinf is False and self.ninf is False

    @property
    def const(self):
        return self.clean and self.d is None and _isinstance(self.n, Fraction)

    def finite(self):
        return b_not(b_or(self.nan, self.pinf, self.ninf))

    def zn(self):
        return rv(self.n) if _isinstance(self.n, Fraction) else self.n

    def zd(self):
        return z3.RealVal(1) if self.d is None else self.d

    def z(self):
        """z3 term of the finite value."""
        if self.d is None:
            return self.zn()
        return self.zn() / self.d

    # -- arithmetic -------------------------------------------------------
    @staticmethod
    def _lift(o):
        import numpy as np
        if _isinstance(o, np.ndarray) and o.ndim > 0:
            return None
        return SymReal.of(o)

    def __neg__(self):
        return SymReal(-self.n, self.d, self.nan, self.ninf, self.pinf, self.py)

    def __pos__(self):
        return self

    def _add(self, o):
        py = self.py and o.py
        if self.const and o.const:
            return SymReal(self.n + o.n, py=py)
        if o.const and o.n == 0:
            return self if self.py == py else self.as_np()
        if self.const and self.n == 0:
            return o if o.py == py else o.as_np()
        if self.d is None and o.d is None:
            n, d = _zadd(self.n, o.n), None
        elif self.d is not None and o.d is not None and (self.d is o.d or self.d.eq(o.d)):
            n, d = _zadd(self.n, o.n), self.d
        elif o.d is None:
            n, d = _zadd(self.n, _zmul(o.n, self.d)), self.d
        elif self.d is None:
            n, d = _zadd(_zmul(self.n, o.d), o.n), o.d
        else:
            n, d = _zadd(_zmul(self.n, o.d), _zmul(o.n, self.d)), _zmul(self.d, o.d)
        if self.clean and o.clean:
            return SymReal(n, d, py=py)
        nan = b_or(self.nan, o.nan, b_and(self.pinf, o.ninf), b_and(self.ninf, o.pinf))
        nn = b_not(nan)
        return SymReal(n, d, nan, b_and(nn, b_or(self.pinf, o.pinf)),
                       b_and(nn, b_or(self.ninf, o.ninf)), py)

    def __add__(self, o):
        o = self._lift(o)
        if o is None:
            return NotImplemented
        return self._add(o)

    def __radd__(self, o):
        o = self._lift(o)
        if o is None:
            return NotImplemented
        return o._add(self)

    def __sub__(self, o):
        o = self._lift(o)
        if o is None:
            return NotImplemented
        return self._add(-o)

    def __rsub__(self, o):
        o = self._lift(o)
        if o is None:
            return NotImplemented
        return o._add(-self)

    def _pos(self):
        """condition: finite part > 0"""
        return to_b(SymReal(self.n, self.d) > 0)

    def _negc(self):
        return to_b(SymReal(self.n, self.d) < 0)

    def _mul(self, o):
        py = self.py and o.py
        if self.const and o.const:
            return SymReal(self.n * o.n, py=py)
        if self.clean and o.clean:
            if (self.const and self.n == 0) or (o.const and o.n == 0):
                return SymReal(Fraction(0), py=py)
            if o.const and o.n == 1:
                return self if self.py == py else self.as_np()
            if self.const and self.n == 1:
                return o if o.py == py else o.as_np()
        n = _zmul(self.n, o.n)
        d = o.d if self.d is None else (self.d if o.d is None else _zmul(self.d, o.d))
        if self.clean and o.clean:
            return SymReal(n, d, py=py)
        sinf = b_or(self.pinf, self.ninf)
        oinf = b_or(o.pinf, o.ninf)
        szero = b_and(self.finite(), to_b(SymReal(self.n) == 0))
        ozero = b_and(o.finite(), to_b(SymReal(o.n) == 0))
        nan = b_or(self.nan, o.nan, b_and(sinf, ozero), b_and(oinf, szero))
        spos = b_or(self.pinf, b_and(self.finite(), self._pos()))
        sneg = b_or(self.ninf, b_and(self.finite(), self._negc()))
        opos = b_or(o.pinf, b_and(o.finite(), o._pos()))
        oneg = b_or(o.ninf, b_and(o.finite(), o._negc()))
        inf = b_and(b_not(nan), b_or(sinf, oinf))
        same = b_or(b_and(spos, opos), b_and(sneg, oneg))
        return SymReal(n, d, nan, b_and(inf, same), b_and(inf, b_not(same)), py)

    def __mul__(self, o):
        o = self._lift(o)
        if o is None:
            return NotImplemented
        return self._mul(o)

    def __rmul__(self, o):
        o = self._lift(o)
        if o is None:
            return NotImplemented
        return o._mul(self)

    def _div(self, o):
        py = self.py and o.py
        if o.const and o.n != 0:
            return self._mul(SymReal(1 / o.n, py=o.py))
        if o.clean:
            zero = to_b(SymReal(o.n) == 0)
            if zero is not False and ENGINE is not None:
                zero = ENGINE.known(zero)
            if zero is not False and py:
                if bool(SymBool(zero)):
                    raise ZeroDivisionError('float division by zero')
                zero = False
        else:
            zero = b_and(o.finite(), to_b(SymReal(o.n) == 0))
        if zero is True:
            n, d = self.n, self.d
        else:
            n = self.n if o.d is None else _zmul(self.n, o.d)
            d = o.zn() if self.d is None else _zmul(self.d, o.n)
            if not z3.is_expr(d):
                d = rv(d)
        if zero is False and self.clean and o.clean:
            return SymReal(n, d, py=py)
        oinf = b_or(o.pinf, o.ninf)
        sinf = b_or(self.pinf, self.ninf)
        szero = b_and(self.finite(), to_b(SymReal(self.n) == 0))
        nan = b_or(self.nan, o.nan, b_and(oinf, sinf), b_and(zero, szero))
        # x / 0: the sign of zero is not modelled, +0 is assumed
        inf = b_and(b_not(nan), b_or(sinf, b_and(zero, b_not(szero))))
        spos = b_or(self.pinf, b_and(self.finite(), self._pos()))
        opos = b_or(zero, b_and(o.finite(), o._pos()))
        same = b_or(b_and(spos, opos), b_and(b_not(spos), b_not(opos)))
        # finite / inf = 0
        fz = b_and(oinf, self.finite())
        if fz is not False:
            zc = fz if fz is not True else z3.BoolVal(True)
            n = z3.If(zc, z3.RealVal(0), n if z3.is_expr(n) else rv(n))
            d = z3.If(zc, z3.RealVal(1), d if z3.is_expr(d) else z3.RealVal(1))
        return SymReal(n, d, nan, b_and(inf, same), b_and(inf, b_not(same)), py)

    def __truediv__(self, o):
        o = self._lift(o)
        if o is None:
            return NotImplemented
        return self._div(o)

    def __rtruediv__(self, o):
        o = self._lift(o)
        if o is None:
            return NotImplemented
        return o._div(self)

    def __floordiv__(self, o):
        o = self._lift(o)
        if o is None:
            return NotImplemented
        return (self / o).floor()

    def __rfloordiv__(self, o):
        o = self._lift(o)
        if o is None:
            return NotImplemented
        return (o / self).floor()

    def __mod__(self, o):
        o = self._lift(o)
        if o is None:
            return NotImplemented
        if self.const and o.const and o.n != 0:
            return SymReal(self.n % o.n)
        q = (self / o).floor()
        return self - q * o

    def __rmod__(self, o):
        o = self._lift(o)
        if o is None:
            return NotImplemented
        return o % self

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __pow__(self, k):
        if _isinstance(k, SymReal) and k.const:
            k = k.n
        if _isinstance(k, SymInt) and k.const:
            k = k.t
        import numpy as np
        if _isinstance(k, np.ndarray) and k.ndim > 0:
            return NotImplemented
        k = fr(k) if not _isinstance(k, (SymReal, SymInt)) else k
        if not _isinstance(k, Fraction):
            return self.power(k if _isinstance(k, SymReal) else k.real())
        if k.denominator == 1:
            k = k.numerator
            if k == 0:
                return SymReal(Fraction(1))
            r = self
            for _ in range(abs(k) - 1):
                r = r * self
            return r if k > 0 else 1 / r
        if k == Fraction(1, 2):
            return self.sqrt()
        if k == Fraction(-1, 2):
            return 1 / self.sqrt()
        return self.power(SymReal(k))

    def power(self, k):
        from . import trig
        return trig.power(ENGINE, self, k)

    def __rpow__(self, o):
        o = SymReal.of(o)
        return o ** self

    def square(self): return self * self

    def __abs__(self):
        if self.const:
            return SymReal(abs(self.n), py=self.py)
        c = to_b(SymReal(self.n, self.d) >= 0)
        if c is not True and c is not False and ENGINE is not None:
            c = ENGINE.known(c)
        r = ite(c, SymReal(self.n, self.d), SymReal(-self.n, self.d))
        return SymReal(r.n, r.d, self.nan, b_or(self.pinf, self.ninf), False, self.py)

    absolute = __abs__
    fabs = __abs__
    negative = __neg__
    positive = __pos__

    def conjugate(self): return self

    @property
    def real(self): return self

    @property
    def imag(self): return SymReal(Fraction(0))

    # -- comparisons ------------------------------------------------------
    @staticmethod
    def _fincmp(a, b, op):
        """comparison of the finite parts"""
        if _isinstance(a.n, Fraction) and _isinstance(b.n, Fraction) and a.d is None and b.d is None:
            return {'<': a.n < b.n, '<=': a.n <= b.n, '==': a.n == b.n}[op]
        if a.n is b.n and a.d is b.d:
            return op != '<'
        if op == '==':
            if a.d is None and b.d is None:
                l, r = a.zn(), b.zn()
            else:
                l = a.zn() if b.d is None else _zmul(a.n, b.d)
                r = b.zn() if a.d is None else _zmul(b.n, a.d)
                l, r = _z(l), _z(r)
            if l.eq(r):
                return True
            return l == r
        l, r = a.z(), b.z()
        return (l < r) if op == '<' else (l <= r)

    def _cmp(self, o, op):
        if op == '>':
            return o._cmp(self, '<')
        if op == '>=':
            return o._cmp(self, '<=')
        f = None
        if self.clean and o.clean:
            return SymBool(self._fincmp(self, o, op))
        both = b_and(self.finite(), o.finite())
        f = b_and(both, self._fincmp(self, o, op)) if both is not False else False
        nn = b_not(b_or(self.nan, o.nan))
        if op == '<':
            g = b_or(b_and(self.ninf, b_not(o.ninf)), b_and(o.pinf, b_not(self.pinf)))
        elif op == '<=':
            g = b_or(self.ninf, o.pinf)
        else:
            g = b_or(b_and(self.pinf, o.pinf), b_and(self.ninf, o.ninf))
        return SymBool(b_and(nn, b_or(f, g)))

    def _c(self, o, op):
        o = self._lift(o)
        if o is None:
            return NotImplemented
        return self._cmp(o, op)

    def __lt__(self, o): return self._c(o, '<')
    def __le__(self, o): return self._c(o, '<=')
    def __gt__(self, o): return self._c(o, '>')
    def __ge__(self, o): return self._c(o, '>=')

    def __eq__(self, o):
        import numpy as np
        if _isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        r = SymReal.of(o)
        if r is None:
            return False
        return self._cmp(r, '==')

    def __ne__(self, o):
        import numpy as np
        if _isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        r = SymReal.of(o)
        if r is None:
            return True
        return ~self._cmp(r, '==')

    def __hash__(self):
        # symbolic numbers share one bucket: sets and dictionaries tell equal ones by the solver
        return hash(self.n) if self.const else 0

    def __bool__(self):
        return bool(self != 0)

    # -- conversions ------------------------------------------------------
    def __float__(self):
        if self.const:
            return _float(self.n)
        if self.nan is True:
            return _float('nan')
        if self.pinf is True:
            return _float('inf')
        if self.ninf is True:
            return -_float('inf')
        raise Unsupported('float() of a symbolic real inside a C function')

    def sym_int(self):
        """int(): truncation toward zero"""
        if not self.clean:
            if bool(SymBool(self.nan)):
                raise ValueError('cannot convert float NaN to integer')
            if bool(SymBool(b_or(self.pinf, self.ninf))):
                raise OverflowError('cannot convert float infinity to integer')
            return SymReal(self.n, self.d).sym_int()
        if self.const:
            return SymInt(_int(self.n))
        t = z3.simplify(self.z())
        if z3.is_rational_value(t):
            return SymInt(_int(t.as_fraction()))
        t = ENGINE.name_real(t)
        return SymInt(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))

    def __int__(self):
        return self.sym_int().__index__()

    __trunc__ = __int__

    def _floor_int(self):
        if self.const:
            return SymInt(self.n.numerator // self.n.denominator)
        t = z3.simplify(self.z())
        if z3.is_rational_value(t):
            q = t.as_fraction()
            return SymInt(q.numerator // q.denominator)
        return SymInt(z3.ToInt(ENGINE.name_real(t)))

    def floor(self):
        if not self.clean:
            r = SymReal(self.n, self.d)._floor_int().real()
            return SymReal(r.n, r.d, self.nan, self.pinf, self.ninf, self.py)
        return self._floor_int().real()

    def ceil(self):
        return -((-self).floor())

    def trunc(self):
        return self.sym_int().real()

    def __floor__(self): return self._floor_int()
    def __ceil__(self): return -((-self)._floor_int())

    def rint(self):
        """round half to even"""
        if not self.clean:
            r = SymReal(self.n, self.d).rint()
            return SymReal(r.n, r.d, self.nan, self.pinf, self.ninf, self.py)
        if self.const:
            return SymReal(Fraction(round(self.n)))
        t = z3.simplify(self.z())
        if z3.is_rational_value(t):
            return SymReal(Fraction(round(t.as_fraction())))
        h = ENGINE.name_real(t + z3.RealVal('1/2'))
        k = z3.ToInt(h)
        tie = z3.And(z3.ToReal(k) == h, k % 2 != 0)
        return SymReal(z3.ToReal(z3.If(tie, k - 1, k)))

    def round(self, decimals=0):
        if decimals == 0:
            return self.rint()
        s = Fraction(10) ** decimals
        return (self * SymReal(s)).rint() * SymReal(1 / s)

    def __round__(self, nd=None):
        if nd is None:
            r = self.rint()
            if r.const:
                return _int(r.n)
            if not r.clean:
                return self.__int__()
            return SymInt(_toint(r.n))
        return self.round(nd)

    def is_integer(self):
        return self == self.floor()

    def __format__(self, spec):
        if self.const:
            return format(_float(self.n), spec)
        return ENGINE.marker(self, spec)

    def __str__(self):
        if self.const:
            return str(_float(self.n))
        return ENGINE.marker(self, 'r') if ENGINE is not None else self.__repr__()

    def __repr__(self):
        if self.const:
            return 'R(%s)' % (self.n,)
        return 'R(%s%s%s)' % (self.n, '' if self.d is None else ' / %s' % self.d,
                              '' if self.clean else ' *')

    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def item(self, *a): return self.as_py()
    def copy(self): return self
    def ravel(self): return self
    def astype(self, *a, **k): return self
    def view(self, *a): return self
    def all(self, *a, **k): return self != 0
    def any(self, *a, **k): return self != 0
    def max(self, *a, **k): return self
    def min(self, *a, **k): return self
    def sum(self, *a, **k): return self
    def mean(self, *a, **k): return self

    # -- functions --------------------------------------------------------
    def sqrt(self):
        return ENGINE.sqrt(self)

    def hypot(self, o):
        return (self * self + o * o).sqrt()

    def sign(self):
        if self.const:
            return SymReal(Fraction((self.n > 0) - (self.n < 0)))
        r = ite(to_b(self > 0), SymReal(Fraction(1)),
                ite(to_b(self < 0), SymReal(Fraction(-1)), SymReal(Fraction(0))))
        return SymReal(r.n, r.d, self.nan, False, False)

    def sin(self): return ENGINE.trig('sin', self)
    def cos(self): return ENGINE.trig('cos', self)
    def tan(self): return self.sin() / self.cos()
    def arccos(self): return ENGINE.trig('arccos', self)
    def arcsin(self): return ENGINE.trig('arcsin', self)
    def arctan(self): return ENGINE.trig('arctan', self)
    def arctan2(self, o): return ENGINE.trig('arctan2', self, SymReal.of(o))
    def exp(self): return ENGINE.trig('exp', self)
    def log(self): return ENGINE.trig('log', self)
    def log10(self): return ENGINE.trig('log10', self)
    def log2(self): return ENGINE.trig('log2', self)
    def exp2(self): return ENGINE.trig('exp2', self)
    def degrees(self): return self * 180 / ENGINE.pi()
    rad2deg = degrees
    def radians(self): return self * ENGINE.pi() / 180
    deg2rad = radians

    def isnan(self): return SymBool(self.nan)
    def isinf(self): return SymBool(b_or(self.pinf, self.ninf))
    def isfinite(self): return SymBool(self.finite())

    def nan_to_num(self, nan=0.0, posinf=None, neginf=None):
        if self.clean:
            return self
        big = SymReal(fr(1.7976931348623157e308))
        posinf = big if posinf is None else SymReal.of(posinf)
        neginf = -big if neginf is None else SymReal.of(neginf)
        r = SymReal(self.n, self.d)
        r = ite(self.ninf, neginf, r)
        r = ite(self.pinf, posinf, r)
        r = ite(self.nan, SymReal.of(nan), r)
        return r


def _toint(n):
    """z3 Int of a z3 Real term known to be ToReal(k)"""
    if z3.is_app(n) and n.decl().kind() == z3.Z3_OP_TO_REAL:
        return n.arg(0)
    return z3.ToInt(n)


def _z(x):
    return rv(x) if _isinstance(x, Fraction) else x


def _zmul(a, b):
    fa, fb = _isinstance(a, Fraction), _isinstance(b, Fraction)
    if fa and fb:
        return a * b
    if fa:
        if a == 0:
            return Fraction(0)
        if a == 1:
            return b
        return rv(a) * b
    if fb:
        if b == 0:
            return Fraction(0)
        if b == 1:
            return a
        return rv(b) * a
    return a * b


def _zadd(a, b):
    fa, fb = _isinstance(a, Fraction), _isinstance(b, Fraction)
    if fa and fb:
        return a + b
    if fa and a == 0:
        return b
    if fb and b == 0:
        return a
    return _z(a) + _z(b)


def ite(c, a, b):
    """if-then-else merge of two numeric values."""
    if _isinstance(c, SymBool):
        c = c.c
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if _isinstance(a, SymBool) or _isinstance(b, SymBool) or (
            _isinstance(a, bool) and _isinstance(b, bool)):
        return SymBool(b_ite(c, to_b(a), to_b(b)))
    ia, ib = SymInt._co(a), SymInt._co(b)
    if ia is not None and ib is not None:
        return SymInt(z3.If(c, ia.z(), ib.z()))
    a, b = SymReal.of(a), SymReal.of(b)
    if a is None or b is None:
        raise Unsupported('if-then-else over non-numbers')
    if a.const and b.const and a.n == b.n:
        return a
    if a.d is None and b.d is None:
        n, d = z3.If(c, a.zn(), b.zn()), None
    elif a.d is not None and b.d is not None and a.d.eq(b.d):
        n, d = z3.If(c, a.zn(), b.zn()), a.d
    else:
        n, d = z3.If(c, a.zn(), b.zn()), z3.If(c, a.zd(), b.zd())
    return SymReal(n, d, b_ite(c, a.nan, b.nan), b_ite(c, a.pinf, b.pinf),
                   b_ite(c, a.ninf, b.ninf), a.py and b.py)


def smin(a, b):
    """minimum, numpy semantics for nan (propagates)"""
    c = a <= b
    c = to_b(c)
    if c is not True and c is not False and ENGINE is not None:
        c = ENGINE.known(c)
    return ite(c, a, b)


def smax(a, b):
    c = to_b(a >= b)
    if c is not True and c is not False and ENGINE is not None:
        c = ENGINE.known(c)
    return ite(c, a, b)


SYMT = (SymReal, SymInt, SymBool)


# ---------------------------------------------------------------------------
# The engine
# ---------------------------------------------------------------------------

class Stats(dict):
    def add(self, k, v=1):
        self[k] = self.get(k, 0) + v


MARK_L, MARK_R = '\x02', '\x03'


class Engine(object):
    """One symbolic execution of a harness along one path."""

    def __init__(self, prefix=(), timeout_ms=20000, max_forks=4000, deadline=None):
        self.prefix = list(prefix)
        self.pos = 0
        self.trace = []            # decisions actually taken at real forks
        self.pending = []          # alternative prefixes discovered
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.timeout_ms = timeout_ms
        self.pc = []
        self.model = None          # last model known to satisfy pc
        self.cache = {}
        self.keep = []
        self.stats = Stats()
        self.fresh_n = 0
        self.vars = {}             # name -> z3 const (harness inputs)
        self.aborted = None
        self.sqrts = {}
        self.trigs = {}
        self.capture = False
        self.logs, self.pows = {}, {}
        self.names = {}
        self.markers = []
        self.max_forks = max_forks
        self.deadline = deadline
        self.abstracted = False    # uninterpreted (over-approximating) symbols used
        self.unknown = 0
        self.decided = {}

    # -- solver plumbing --------------------------------------------------
    def _check(self, *assumps, quick=False):
        self.abort_check()
        t0 = time.time()
        if quick:
            self.solver.set('timeout', 2000)
        r = self.solver.check(*assumps)
        if quick:
            self.solver.set('timeout', self.timeout_ms)
            if r == z3.unknown:
                self.stats.add('solver_s', time.time() - t0)
                self.stats.add('queries')
                return r
        self.stats.add('solver_s', time.time() - t0)
        self.stats.add('queries')
        if r == z3.unknown:
            # one retry with a fresh solver (different tactic selection)
            t0 = time.time()
            s = z3.SolverFor('QF_NRA') if not self._has_int() else z3.Solver()
            s.set('timeout', self.timeout_ms)
            s.add(self.solver.assertions())
            s.add(*assumps)
            r = s.check()
            self.stats.add('solver_s', time.time() - t0)
            self.stats.add('queries')
            if r == z3.unknown:
                self.unknown += 1
                self.stats.add('unknown')
            elif r == z3.sat:
                self._lastmodel = s.model()
            return r
        if r == z3.sat:
            self._lastmodel = self.solver.model()
        return r

    def _has_int(self):
        return self.stats.get('ints', 0) > 0

    def abort_check(self):
        if self.aborted is not None:
            raise self.aborted
        if self.deadline is not None and time.time() > self.deadline:
            self.abort(PathBudget('deadline'))

    def abort(self, exc):
        if self.aborted is None:
            self.aborted = exc
        raise exc

    def unsupported(self, msg):
        self.abort(Unsupported(msg))

    def add(self, c):
        """add to the path condition"""
        if c is True:
            return
        if c is False:
            self.abort(PathInfeasible())
        self.solver.add(c)
        self.pc.append(c)
        if self.model is not None:
            if not z3.is_true(self.model.eval(c, model_completion=True)):
                self.model = None

    # -- inputs -----------------------------------------------------------
    def fresh_real(self, name):
        self.fresh_n += 1
        return z3.Real('%s!%d' % (name, self.fresh_n))

    def fresh_int(self, name):
        self.stats.add('ints')
        self.fresh_n += 1
        return z3.Int('%s!%d' % (name, self.fresh_n))

    def name_real(self, t):
        """Name a term containing a division so that integer/real conversions
        see a plain variable (keeps nonlinear terms out of ToInt)."""
        self.stats.add('ints')
        t = z3.simplify(t)
        if z3.is_rational_value(t):
            return t
        i = t.get_id()
        if i in self.names:
            return self.names[i][1]
        if _has_div(t):
            v = self.fresh_real('q')
            self.solver.add(v == t)
            self.pc.append(v == t)
            self.model = None
        else:
            v = t
        self.names[i] = (t, v)
        return v

    # -- forking ----------------------------------------------------------
    def known(self, c):
        """c, or the truth value it is known to have on this path (no fork,
        no solver call)."""
        if c is True or c is False:
            return c
        i = c.get_id()
        if i in self.cache:
            return self.cache[i][1]
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        i = s.get_id()
        if i in self.cache:
            return self.cache[i][1]
        return c

    def entailed(self, c):
        """Decide with the solver whether c has one value on this path."""
        c = self.known(c)
        if c is True or c is False:
            return c
        r = self._check(z3.Not(c))
        if r == z3.unsat:
            self._remember(c, True)
            return True
        r = self._check(c)
        if r == z3.unsat:
            self._remember(c, False)
            return False
        return None

    def _remember(self, c, val):
        self.keep.append(c)
        self.cache[c.get_id()] = (c, val)
        n = z3.Not(c)
        s = z3.simplify(n)
        self.keep.append(s)
        self.cache[s.get_id()] = (s, not val)

    def fork(self, c):
        self.abort_check()
        c0 = c
        c = self.known(c)
        if c is True or c is False:
            return c
        s = z3.simplify(c)
        h = c.hash()
        # decide feasibility
        if self.pos < len(self.prefix):
            entry = self.prefix[self.pos]
            if entry[0] != 'b' or entry[3] != h:
                self.unsupported('path replay out of step')
            self.pos += 1
            self.trace.append(entry)
            val = entry[1]
            if not entry[2]:
                self.add(s if val else z3.Not(s))
            self._remember(s, val)
            self._remember(c0, val)
            return val
        can_t = can_f = None
        mt = mf = None
        if self.model is not None:
            v = self.model.eval(s, model_completion=True)
            if z3.is_true(v):
                can_t, mt = True, self.model
            elif z3.is_false(v):
                can_f, mf = True, self.model
        if can_t is None:
            r = self._check(s)
            can_t = r != z3.unsat
            if r == z3.sat:
                mt = self._lastmodel
        if can_f is None:
            r = self._check(z3.Not(s))
            can_f = r != z3.unsat
            if r == z3.sat:
                mf = self._lastmodel
        if not can_t and not can_f:
            self.abort(PathInfeasible())
        self.pos += 1
        if can_t and can_f:
            self.stats.add('forks')
            if len(self.trace) > self.max_forks:
                self.abort(PathBudget('forks'))
            self.pending.append(self.trace + [('b', False, False, h)])
            self.trace.append(('b', True, False, h))
            self.prefix.append(('b', True, False, h))
            self.solver.add(s)
            self.pc.append(s)
            self.model = mt
            val = True
        else:
            val = bool(can_t)
            self.stats.add('forced')
            self.trace.append(('b', val, True, h))
            self.prefix.append(('b', val, True, h))
            self.model = mt if val else mf
        self._remember(s, val)
        self._remember(c0, val)
        return val

    def concretize_int(self, t, limit=64):
        """Fork over the feasible values of an integer term."""
        self.abort_check()
        s = z3.simplify(t)
        if z3.is_int_value(s):
            return s.as_long()
        for _ in range(limit):
            if self.pos < len(self.prefix):
                # the candidate value is stored in the decision
                entry = self.prefix[self.pos]
                if entry[0] != 'int':
                    self.unsupported('path replay out of step')
                self.pos += 1
                self.trace.append(entry)
                kind, v, taken = entry
                if taken:
                    self.add(s == v)
                    return v
                self.add(s != v)
                continue
            m = self.model
            if m is None:
                r = self._check()
                if r == z3.unsat:
                    self.abort(PathInfeasible())
                if r != z3.sat:
                    self.unsupported('cannot concretise integer')
                m = self.model = self._lastmodel
            v = m.eval(s, model_completion=True).as_long()
            r = self._check(s != v)
            self.pos += 1
            if r != z3.unsat:
                self.stats.add('forks')
                self.pending.append(self.trace + [('int', v, False)])
            self.trace.append(('int', v, True))
            self.prefix.append(('int', v, True))
            self.solver.add(s == v)
            self.pc.append(s == v)
            return v
        self.abort(PathBudget('integer with more than %d values' % limit))

    # -- obligations ------------------------------------------------------
    def feasible(self):
        """Is the path condition satisfiable (reachability witness)?"""
        if self.model is not None:
            return z3.sat
        r = self._check()
        if r == z3.sat:
            self.model = self._lastmodel
        return r

    def prove(self, c):
        """None if pc => c; else a model of pc and not c, or 'unknown'."""
        c = to_b(c)
        self.stats.add('obligations')
        if c is True:
            self.stats.add('trivial')
            return None
        if c is False:
            r = self.feasible()
            return self.model if r == z3.sat else (None if r == z3.unsat else 'unknown')
        s = z3.simplify(c, som=True)
        if z3.is_true(s):
            self.stats.add('rewritten')
            return None
        r = self._check(z3.Not(s))
        if r == z3.unsat:
            return None
        if r == z3.sat:
            return self._lastmodel
        return 'unknown'

    # -- nonlinear / transcendental ----------------------------------------
    def pi(self):
        from .trig import PI
        return SymReal(PI)

    def sqrt(self, x):
        if x.const and x.n >= 0:
            a, b = _isqrt(x.n.numerator), _isqrt(x.n.denominator)
            if a is not None and b is not None:
                return SymReal(Fraction(a, b))
        if not x.clean:
            r = self.sqrt(SymReal(x.n, x.d))
            return SymReal(r.n, r.d, b_or(x.nan, x.ninf, r.nan), x.pinf, False)
        t = z3.simplify(x.z(), som=True)
        i = t.get_id()
        if i not in self.sqrts:
            y = self.fresh_real('sqrt')
            ax = z3.And(y >= 0, z3.Or(t < 0, y * y == t))
            self.solver.add(ax)
            self.pc.append(ax)
            self.model = None
            neg = to_b(SymReal(x.n, x.d) < 0)
            if neg is not False:
                k = self.entailed(neg)
                neg = neg if k is None else k
            self.sqrts[i] = (t, SymReal(y, nan=neg))
        return self.sqrts[i][1]

    def trig(self, f, *args):
        """Inverse trigonometric functions are modelled by the angle's cosine
        and sine; other functions are uninterpreted."""
        from . import trig
        return trig.apply(self, f, *args)

    # -- formatting markers -------------------------------------------------
    def marker(self, value, spec):
        """A string standing for the formatted symbolic value."""
        import re
        v = SymReal.of(value)
        key = None
        if v is not None and v.clean:
            t = z3.simplify(v.z(), som=True)
            key = ('marker', t.get_id(), spec, isinstance(value, SymInt))
            if key in self.names:
                return self.names[key][1]
        self.markers.append((value, spec))
        body = '%d' % (len(self.markers) - 1)
        m = re.match(r'^[^0-9]*(\d+)?', spec)
        width = _int(m.group(1)) if m and m.group(1) else 8
        pad = max(width - len(body) - 2, 0)
        r = MARK_L + '0' * pad + body + MARK_R
        if key is not None:
            self.names[key] = (t, r)
        return r

    def unmark(self, s):
        """(value, spec) of a marker string, or None."""
        s = s.strip()
        if len(s) > 2 and s[0] == MARK_L and s[-1] == MARK_R:
            return self.markers[_int(s[1:-1])]
        return None

    def read_number(self, s):
        """float() of a string which may be a marker: the printed decimal."""
        import re
        mk = self.unmark(s)
        if mk is None:
            if MARK_L in s:
                raise ValueError('could not convert string to float: %r' % s)
            return SymReal.of(_float(s))
        v, spec = mk
        v = SymReal.of(v)
        if not v.clean and self.entailed(v.finite()) is True:
            v = SymReal(v.n, v.d)
        if not v.clean and spec == 'r':
            return v
        if not v.clean:
            self.unsupported('formatted special value')
        m = re.match(r'^%?[-+ 0#]*\d*(?:\.(\d+))?([a-zA-Z])$', spec)
        if spec in ('r', 'd', 'i'):
            return v
        if not m:
            self.unsupported('format spec %r' % spec)
        prec = _int(m.group(1)) if m.group(1) is not None else 6
        kind = m.group(2)
        if kind in 'di':
            return v
        if kind in 'fF':
            t = v.z()
            key = ('fmt', t.get_id(), prec)
            if key not in self.names:
                r = self.fresh_real('dec')
                h = rv(Fraction(1, 2 * 10 ** prec))
                ax = z3.And(r - t <= h, t - r <= h, z3.Implies(t == 0, r == 0))
                self.solver.add(ax)
                self.pc.append(ax)
                self.model = None
                self.names[key] = (t, SymReal(r))
            return self.names[key][1]
        if kind in 'gGeE':
            r = self.fresh_real('dec')
            rel = rv(Fraction(1, 10 ** (prec - 1)))
            a = z3.If(v.z() >= 0, v.z(), -v.z())
            ax = z3.And(r - v.z() <= rel * a, v.z() - r <= rel * a)
            self.solver.add(ax)
            self.pc.append(ax)
            self.model = None
            return SymReal(r)
        self.unsupported('format spec %r' % spec)


def _isqrt(n):
    import math
    r = math.isqrt(n)
    return r if r * r == n else None


def _has_div(t):
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            k = x.decl().kind()
            if k in (z3.Z3_OP_DIV, z3.Z3_OP_POWER):
                return True
            if k == z3.Z3_OP_MUL and sum(1 for c in x.children() if not z3.is_rational_value(c)) > 1:
                return True
            stack.extend(x.children())
    return False
