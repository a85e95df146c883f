"""
Symbolic scalars and the path engine.

A ``Sym`` wraps a z3 Real (or Int) term.  The code under verification is *run*,
by the ordinary Python interpreter, on ``Sym`` values: arithmetic builds terms,
``bool()`` of a symbolic comparison asks the solver which sides are feasible and
forks (by re-execution with a decision prefix).  What a path computes is therefore
exactly what the current source computes, for all values satisfying the path
condition.
"""
import datetime
import itertools
import math
import numbers
import operator
import sys
import time
from fractions import Fraction

import numpy as np
import z3

z3.set_param("model.completion", True)
sys.set_int_max_str_digits(0)  # solver models can be that exact


class EngineError(BaseException):
    """The engine cannot go on (BaseException: code under test must not swallow it)."""


class Unsupported(EngineError):
    """The code asked a symbolic value for something that cannot be encoded."""


class PathAbort(EngineError):
    """The current path is infeasible or was cut."""


class Budget(EngineError):
    """Out of time or paths."""


CTX = None  # current engine (module global, one at a time)


def ctx():
    if CTX is None:
        raise Unsupported("symbolic value used outside an engine run")
    return CTX


# --------------------------------------------------------------------------
# numbers -> terms


_SNAP = {}


def simplest(lo, hi):
    """simplest fraction in [lo, hi], 0 < lo <= hi (Stern-Brocot)"""
    fl = lo.numerator // lo.denominator
    if fl == lo:
        return Fraction(fl)
    if fl + 1 <= hi:
        return Fraction(fl + 1)
    return fl + 1 / simplest(1 / (hi - fl), 1 / (lo - fl))


def snap(x):
    """the simplest rational within 4 units of 2**-52 (relative) of a float"""
    r = _SNAP.get(x)
    if r is None:
        f = Fraction(x)
        if f == 0 or f.denominator == 1:
            r = f
        else:
            g = abs(f)
            eps = g * Fraction(4, 2 ** 52)
            r = simplest(g - eps, g + eps)
            r = r if f > 0 else -r
        _SNAP[x] = r
    return r


def frac(x):
    """rational value a Python number stands for (floats: see snap)"""
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (float, np.floating)):
        return snap(float(x))
    raise Unsupported("number %r" % (x,))


def is_num(x):
    return isinstance(x, (int, float, np.number, np.bool_, Fraction)) and not isinstance(
        x, (complex, np.complexfloating)
    )


def is_nonfinite(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


def rv(fr):
    return z3.RealVal(str(fr))


def to_term(x):
    """term (Real or Int sort) for a Sym / finite number; None when not convertible"""
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.RealVal(1), z3.RealVal(0))
    if is_num(x):
        if is_nonfinite(x):
            return None
        if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
            return z3.IntVal(int(x))
        return rv(frac(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return to_term(x[()])
    return None


def as_real(t):
    return z3.ToReal(t) if t.is_int() else t


def unify(a, b):
    if a.is_int() and b.is_int():
        return a, b
    return as_real(a), as_real(b)


def _const(t):
    """Fraction value of a numeral term, else None"""
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    if z3.is_rational_value(t):
        return t.as_fraction()
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return _const(t.arg(0))
    return None


def wrap(t):
    return Sym(t)


# --------------------------------------------------------------------------


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().branch(self.t)

    def _other(self, o):
        if isinstance(o, SymBool):
            return o.t
        if isinstance(o, (bool, np.bool_)):
            return z3.BoolVal(bool(o))
        return None

    def __and__(self, o):
        t = self._other(o)
        return NotImplemented if t is None else SymBool(z3.And(self.t, t))

    __rand__ = __and__

    def __or__(self, o):
        t = self._other(o)
        return NotImplemented if t is None else SymBool(z3.Or(self.t, t))

    __ror__ = __or__

    def __xor__(self, o):
        t = self._other(o)
        return NotImplemented if t is None else SymBool(z3.Xor(self.t, t))

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def logical_not(self):
        return SymBool(z3.Not(self.t))

    def all(self, *a, **k):
        return self

    def any(self, *a, **k):
        return self

    def item(self):
        return self

    def __eq__(self, o):
        t = self._other(o)
        return NotImplemented if t is None else SymBool(self.t == t)

    def __ne__(self, o):
        t = self._other(o)
        return NotImplemented if t is None else SymBool(self.t != t)

    def _num(self):
        return Sym(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __rsub__(self, o):
        return o - self._num()

    def __sub__(self, o):
        return self._num() - o

    def __int__(self):
        return int(bool(self))

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return "<symbool>"


def symbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def _cmp(op):
    def f(self, other):
        if isinstance(other, (float, np.floating)) and not math.isfinite(other):
            return bool(op(0.0, float(other)))  # finite versus nan / +-inf
        if isinstance(other, (np.timedelta64, datetime.timedelta)):
            other = ctx().timedelta_value(np.timedelta64(other))
        o = to_term(other)
        if o is None:
            if op is operator.eq:
                return False if not hasattr(other, "__array_ufunc__") else NotImplemented
            if op is operator.ne:
                return True if not hasattr(other, "__array_ufunc__") else NotImplemented
            return NotImplemented
        a, b = unify(self.t, o)
        if a.eq(b):
            return bool(op(0, 0))
        return symbool(op(a, b))

    return f


def _on_grid(t):
    """t is a whole number of something, by rounding"""
    while True:
        k = t.decl().kind()
        if k == z3.Z3_OP_TO_INT:
            return True
        if k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV):
            rest = [x for x in t.children() if _const(x) is None]
            if len(rest) != 1:
                return False
            t = rest[0]
        elif k in (z3.Z3_OP_TO_REAL, z3.Z3_OP_UMINUS):
            t = t.arg(0)
        else:
            return False


_counter = itertools.count()


class Sym:
    """A real (or integer) number that is not known yet."""

    __slots__ = ("t",)
    __array_priority__ = 50

    def __init__(self, t):
        self.t = t

    # -- numpy duck-scalar attributes (class-level ndim/shape would make pint
    #    treat it as a duck array only with __array_function__, which is absent)
    @property
    def real(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def is_integer(self):
        if self.t.is_int():
            return True
        return symbool(z3.IsInt(self.t))

    def astype(self, *_a, **_k):
        return self

    # -- arithmetic
    def _bin(self, other, f, reflected=False):
        if isinstance(other, (float, np.floating)) and not math.isfinite(other):
            if math.isnan(other):
                return float("nan")
            raise Unsupported("arithmetic with infinity")
        if isinstance(other, (np.timedelta64, datetime.timedelta)):
            other = ctx().timedelta_value(np.timedelta64(other))
        o = to_term(other)
        if o is None:
            return NotImplemented
        a, b = (o, self.t) if reflected else (self.t, o)
        return f(a, b)

    def __add__(self, o):
        return self._bin(o, _add)

    def __radd__(self, o):
        return self._bin(o, _add, True)

    def __sub__(self, o):
        return self._bin(o, _sub)

    def __rsub__(self, o):
        return self._bin(o, _sub, True)

    def __mul__(self, o):
        return self._bin(o, _mul)

    def __rmul__(self, o):
        return self._bin(o, _mul, True)

    def __truediv__(self, o):
        return self._bin(o, _div)

    def __rtruediv__(self, o):
        return self._bin(o, _div, True)

    def __floordiv__(self, o):
        return self._bin(o, _floordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, _floordiv, True)

    def __mod__(self, o):
        return self._bin(o, _mod)

    def __rmod__(self, o):
        return self._bin(o, _mod, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        return sym_pow(self, o)

    def __rpow__(self, o):
        return sym_pow(o, self)

    def __neg__(self):
        return Sym(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        if bool(self >= 0):
            return self
        return -self

    absolute = fabs = __abs__

    def conjugate(self):
        return self

    def __round__(self, n=None):
        k = _const(z3.simplify(self.t))
        if k is not None:
            x = Fraction(round(k)) if n is None else round(Fraction(k), int(n))
            return Sym(z3.IntVal(int(x)) if n is None else rv(x))
        scale = 10 ** (n or 0)
        v = z3.ToInt(as_real((self * scale).t) + z3.RealVal("1/2"))
        return Sym(v) if n is None else Sym(z3.ToReal(v)) / scale

    def round(self, decimals=0, out=None):
        return Sym(as_real(self.__round__(decimals).t))

    def __floor__(self):
        return Sym(z3.simplify(z3.ToInt(as_real(self.t))))

    def __ceil__(self):
        return Sym(z3.simplify(-z3.ToInt(-as_real(self.t))))

    def __trunc__(self):
        if bool(self >= 0):
            return self.__floor__()
        return self.__ceil__()

    def floor(self):
        return Sym(z3.ToReal(z3.ToInt(as_real(self.t))))

    def ceil(self):
        return Sym(z3.ToReal(-z3.ToInt(-as_real(self.t))))

    def rint(self):
        return Sym(as_real(self.__round__().t))

    def trunc(self):
        return Sym(as_real(self.__trunc__().t))

    # -- transcendental
    def exp(self):
        return ctx().exp(self)

    def expm1(self):
        return ctx().exp(self) - 1

    def log(self):
        return ctx().log(self)

    def log1p(self):
        return ctx().log(self + 1)

    def sqrt(self):
        return sym_pow(self, 0.5)

    def square(self):
        return self * self

    def reciprocal(self):
        return 1 / self

    def isnan(self):
        return False

    def isinf(self):
        return False

    def isfinite(self):
        return True

    def sign(self):
        if bool(self > 0):
            return 1.0
        if bool(self < 0):
            return -1.0
        return 0.0

    # -- comparison
    __lt__ = _cmp(operator.lt)
    __le__ = _cmp(operator.le)
    __gt__ = _cmp(operator.gt)
    __ge__ = _cmp(operator.ge)
    __eq__ = _cmp(operator.eq)
    __ne__ = _cmp(operator.ne)

    def __hash__(self):
        # rounded numbers coincide for whole ranges of values: leave it to __eq__
        return 7 if _on_grid(self.t) else hash(self.t)

    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else bool(r)

    def __index__(self):
        c = _const(z3.simplify(self.t))
        if c is not None and c.denominator == 1:
            return int(c)
        return ctx().concretise_int(self)

    def __int__(self):
        c = _const(z3.simplify(self.t))
        if c is not None:
            return int(c)
        if self.t.is_int():
            return ctx().concretise_int(self)
        raise Unsupported("int() of a symbolic real")

    def __float__(self):
        c = _const(z3.simplify(self.t))
        if c is not None:
            return float(c)
        raise Unsupported("float() of a symbolic value")

    def __repr__(self):
        return "<sym %d %s>" % (self.t.get_id(), str(self.t)[:60])

    def __str__(self):
        return ctx().text(self, "") if _on_grid(self.t) else repr(self)

    def __format__(self, spec):
        return ctx().text(self, spec)

    # -- numpy protocol
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import arrays

        return arrays.apply_ufunc(ufunc, method, inputs, kwargs)


numbers.Real.register(Sym)


def _add(a, b):
    ca, cb = _const(a), _const(b)
    if ca == 0:
        return Sym(b if not (a.is_real() and b.is_int()) else as_real(b))
    if cb == 0:
        return Sym(a if not (b.is_real() and a.is_int()) else as_real(a))
    a, b = unify(a, b)
    return Sym(z3.simplify(a + b) if ca is not None and cb is not None else a + b)


def _sub(a, b):
    if _const(b) == 0:
        return Sym(a if not (b.is_real() and a.is_int()) else as_real(a))
    a, b = unify(a, b)
    if a.eq(b):
        return Sym(z3.IntVal(0) if a.is_int() else z3.RealVal(0))
    return Sym(a - b)


def _mul(a, b):
    ca, cb = _const(a), _const(b)
    if ca is not None and cb is not None:
        a, b = unify(a, b)
        return Sym(z3.simplify(a * b))
    if ca == 1:
        return Sym(b if a.is_int() else as_real(b))
    if cb == 1:
        return Sym(a if b.is_int() else as_real(a))
    if ca == 0 or cb == 0:
        return Sym(z3.IntVal(0) if a.is_int() and b.is_int() else z3.RealVal(0))
    a, b = unify(a, b)
    return Sym(a * b)


def _div(a, b):
    a, b = as_real(a), as_real(b)
    cb = _const(b)
    if cb is not None:
        if cb == 0:
            raise ZeroDivisionError("float division by zero")
        if cb == 1:
            return Sym(a)
        return Sym(z3.simplify(a / b) if _const(a) is not None else a * rv(1 / cb))
    ctx().nonzero(b)
    return Sym(z3.RealVal(0) if _const(a) == 0 else a / b)


def _floordiv(a, b):
    if a.is_int() and b.is_int():
        ctx().nonzero(b)
        cb = _const(b)
        if cb is None:
            raise Unsupported("symbolic integer divisor")
        if cb > 0:
            return Sym(a / b)
        return Sym((-a) / (-b))
    q = _div(a, b)
    return Sym(z3.ToReal(z3.ToInt(as_real(q.t))))


def _mod(a, b):
    if a.is_int() and b.is_int():
        cb = _const(b)
        if cb is None or cb <= 0:
            raise Unsupported("symbolic modulus")
        return Sym(a % b)
    q = _floordiv(a, b)
    return Sym(as_real(a)) - q * Sym(as_real(b))


def sym_pow(base, ex):
    if isinstance(ex, Sym):
        c = _const(z3.simplify(ex.t))
        if c is None:
            # base ** x == exp(x * log(base))
            cb = None if isinstance(base, Sym) else float(base)
            if cb is not None and cb > 0:
                if cb == 1:
                    return Sym(z3.RealVal(1))
                if abs(cb - math.e) < 1e-15:
                    return ctx().exp(ex)
                return ctx().exp(ex * math.log(cb))
            raise Unsupported("symbolic exponent")
        ex = c
    if not is_num(ex):
        return NotImplemented
    ex = frac(ex)
    if not isinstance(base, Sym):
        base = Sym(to_term(base))
    if ex.denominator == 1:
        n = int(ex)
        if n < 0:
            return 1 / sym_pow(base, -n)
        if n == 0:
            return Sym(z3.RealVal(1))
        r = base
        for _ in range(n - 1):
            r = r * base
        return r
    if ex == Fraction(1, 2):
        return ctx().sqrt(base)
    if ex == Fraction(-1, 2):
        return 1 / ctx().sqrt(base)
    if ex == Fraction(3, 2):
        return base * ctx().sqrt(base)
    raise Unsupported("exponent %s" % ex)
