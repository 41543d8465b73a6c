"""Symbolic scalars: extended reals, mathematical integers, Booleans, finite strings."""
from __future__ import annotations

import math
import numbers
from fractions import Fraction

import numpy as np
import z3

from .core import Unsupported, cur

z3.set_param("model.completion", True)


def frac(f):
    """The rational a float stands for: a short decimal (0.2) means that decimal."""
    s = repr(float(f))
    if len(s) <= 12 and "e" not in s:
        return Fraction(s)
    return Fraction(float(f))


def rv(x):
    """z3 real of a finite Python/numpy number."""
    if isinstance(x, (bool, np.bool_)):
        return z3.RealVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    f = frac(x)
    return z3.Q(f.numerator, f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)


# ---- Booleans that may be Python bools or z3 terms --------------------------------
def bnot(a):
    return (not a) if isinstance(a, bool) else z3.Not(a)


def band(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
        else:
            ys.append(x)
    if not ys:
        return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)


def bor(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
        else:
            ys.append(x)
    if not ys:
        return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)


def bite(c, a, b):
    """If over flag values (Python bool or z3)."""
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else z3.Not(c)
    if isinstance(a, bool):
        return z3.Or(c, b) if a else z3.And(z3.Not(c), b)
    if isinstance(b, bool):
        return z3.Or(z3.Not(c), a) if b else z3.And(c, a)
    return z3.If(c, a, b)


def tobool(e):
    """Wrap a flag into the value world."""
    if isinstance(e, bool):
        return np.bool_(e)
    e2 = z3.simplify(e)
    if z3.is_true(e2):
        return np.bool_(True)
    if z3.is_false(e2):
        return np.bool_(False)
    return SymBool(e2)


def is_sym(x):
    return isinstance(x, Sym)


class Sym:
    __slots__ = ()
    __array_ufunc__ = None       # ndarray/np.float64 operators defer to us
    __array_priority__ = 1e6
    ndim = 0
    shape = ()
    size = 1

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __format__(self, spec):
        return "<sym>"

    def __str__(self):
        return "<sym>"

    def __repr__(self):
        return "<sym>"

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, t, *a, **k):
        from .arrays import coerce_kind, kind_of_dtype
        return coerce_kind(self, kind_of_dtype(t))

    def squeeze(self, *a, **k):
        return self


def _arrayish(o):
    return isinstance(o, np.ndarray) and o.ndim > 0


def _pandas(o):
    return type(o).__module__.startswith("pandas")


class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return cur().branch(self.e)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def as_int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    # logic ------------------------------------------------------------------
    def _b(self, o):
        if isinstance(o, SymBool):
            return o.e
        if isinstance(o, (bool, np.bool_)):
            return bool(o)
        return None

    def _logic(self, o, fn, ufn, iname):
        if _arrayish(o) or _pandas(o):
            return NotImplemented if _pandas(o) else _lift(ufn, self, o)
        b = self._b(o)
        if b is None:
            if isinstance(o, (int, np.integer, SymInt)):
                return getattr(self.as_int(), iname)(o)
            return NotImplemented
        return tobool(fn(self.e, b))

    def __and__(self, o):
        return self._logic(o, band, np.logical_and, "__and__")
    __rand__ = __and__

    def __or__(self, o):
        return self._logic(o, bor, np.logical_or, "__or__")
    __ror__ = __or__

    def __xor__(self, o):
        def x(a, b):
            if isinstance(b, bool):
                return bnot(a) if b else a
            return z3.Xor(a, b)
        return self._logic(o, x, np.logical_xor, "__xor__")
    __rxor__ = __xor__

    def __invert__(self):
        return tobool(bnot(self.e))

    def logical_not(self):
        return ~self

    def __eq__(self, o):
        b = self._b(o)
        if b is not None:
            if isinstance(b, bool):
                return tobool(self.e if b else bnot(self.e))
            return tobool(self.e == b)
        if o is None or isinstance(o, str):
            return False
        return self.as_int() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        if isinstance(r, (bool, np.bool_)):
            return np.bool_(not r)
        return ~r

    def __neg__(self):
        return -self.as_int()

    def __abs__(self):
        return self.as_int()

    def __pos__(self):
        return self.as_int()

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self


def _delegate(name):
    def f(self, o, *a):
        return getattr(self.as_int(), name)(o, *a)
    f.__name__ = name
    return f


for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__",
           "__rtruediv__", "__floordiv__", "__mod__", "__lt__", "__le__", "__gt__", "__ge__",
           "__pow__", "__rpow__"):
    setattr(SymBool, _n, _delegate(_n))


def _lift(ufn, a, b):
    from .npfuncs import ufunc
    return ufunc(ufn, "__call__", (a, b), {})


class SymInt(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def concretise(self):
        c = cur()
        t = z3.simplify(self.t)
        while not z3.is_int_value(t):
            pos = len(c.trace)
            if pos < len(c.prefix):
                # replaying: the value tried is recorded in the trace
                d = c.prefix[pos]
                val = d[1]
                c.trace.append(d)
                e = t == val
                if d[0] == 1:
                    c._push(e)
                    return val
                if d[0] == 3:
                    return val
                c._push(z3.Not(e))
                continue
            if c.model is None:
                if not c.feasible():
                    from .core import PathAbort
                    raise PathAbort("infeasible")
                if c.model is None:
                    raise Unsupported("solver unknown while enumerating an index")
            val = c.model.eval(t, model_completion=True).as_long()
            e = t == val
            r = c._check(z3.Not(e))
            if r == z3.unsat:
                c.trace.append((3, val))
                return val
            c.stats.forks += 1
            c.work.append(c.trace + [(0, val)])
            c.trace.append((1, val))
            m = c.model
            c._push(e)
            c.model = m
            return val
        return t.as_long()

    def __index__(self):
        return self.concretise()

    def __int__(self):
        return self.concretise()

    def __hash__(self):
        return hash(self.concretise())

    def __float__(self):
        return float(self.concretise())

    def __bool__(self):
        return cur().branch(self.t != 0)

    def as_float(self):
        return SymFloat(z3.ToReal(self.t))

    def __abs__(self):
        return SymInt(z3.If(self.t >= 0, self.t, -self.t))

    def __neg__(self):
        return SymInt(-self.t)

    def __pos__(self):
        return self

    def __round__(self, n=None):
        return self

    def is_integer(self):
        return True

    def __invert__(self):
        return SymInt(-self.t - 1)


def _ie(o):
    if isinstance(o, SymInt):
        return o.t
    if isinstance(o, SymBool):
        return z3.If(o.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(o, (bool, np.bool_, int, np.integer)):
        return z3.IntVal(int(o))
    return None


def _mkint(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return np.int64(t.as_long()) if abs(t.as_long()) < 2**62 else t.as_long()
    return SymInt(t)


def _int_binop(name, ufn, fn, rev=False, cmp=False):
    def f(self, o):
        if _arrayish(o):
            return _lift(ufn, o, self) if rev else _lift(ufn, self, o)
        if _pandas(o):
            return NotImplemented
        b = _ie(o)
        if b is None:
            if isinstance(o, (float, np.floating, SymFloat)):
                s = self.as_float()
                return getattr(s, name)(o)
            if cmp and name in ("__eq__", "__ne__"):
                return name == "__ne__"
            return NotImplemented
        x, y = (b, self.t) if rev else (self.t, b)
        return fn(x, y)
    f.__name__ = name
    return f


def _idiv(x, y):
    # Python floor division; z3 div floors for positive divisors
    ys = z3.simplify(y)
    if z3.is_int_value(ys):
        k = ys.as_long()
        if k > 0:
            return _mkint(x / y)
        if k < 0:
            return _mkint((-x) / (-y))
        raise ZeroDivisionError("integer division or modulo by zero")
    if cur().branch(y == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    if cur().branch(y > 0):
        return _mkint(x / y)
    return _mkint((-x) / (-y))


def _imod(x, y):
    q = _idiv(x, y)
    return _mkint(x - y * _ie(q))


def _ipow(x, y):
    ys = z3.simplify(y)
    if z3.is_int_value(ys) and 0 <= ys.as_long() <= 8:
        r = z3.IntVal(1)
        for _ in range(ys.as_long()):
            r = r * x
        return _mkint(r)
    raise Unsupported("integer power")


def _itruediv(x, y):
    return SymFloat(z3.ToReal(x)) / SymFloat(z3.ToReal(y))


for _n, _u, _f, _c in (
    ("add", np.add, lambda x, y: _mkint(x + y), False),
    ("sub", np.subtract, lambda x, y: _mkint(x - y), False),
    ("mul", np.multiply, lambda x, y: _mkint(x * y), False),
    ("floordiv", np.floor_divide, _idiv, False),
    ("mod", np.remainder, _imod, False),
    ("truediv", np.true_divide, _itruediv, False),
    ("pow", np.power, _ipow, False),
):
    setattr(SymInt, f"__{_n}__", _int_binop(f"__{_n}__", _u, _f))
    setattr(SymInt, f"__r{_n}__", _int_binop(f"__r{_n}__", _u, _f, rev=True))
for _n, _u, _f in (
    ("lt", np.less, lambda x, y: tobool(x < y)),
    ("le", np.less_equal, lambda x, y: tobool(x <= y)),
    ("gt", np.greater, lambda x, y: tobool(x > y)),
    ("ge", np.greater_equal, lambda x, y: tobool(x >= y)),
    ("eq", np.equal, lambda x, y: tobool(x == y)),
    ("ne", np.not_equal, lambda x, y: tobool(x != y)),
):
    setattr(SymInt, f"__{_n}__", _int_binop(f"__{_n}__", _u, _f, cmp=True))


class SymFloat(Sym):
    """Extended real: value v, or nan / +inf / -inf according to flags."""
    __slots__ = ("v", "nan", "pinf", "ninf")

    def __init__(self, v, nan=False, pinf=False, ninf=False):
        self.v = v
        self.nan = nan
        self.pinf = pinf
        self.ninf = ninf

    @property
    def plain(self):
        return self.nan is False and self.pinf is False and self.ninf is False

    def resolve(self):
        """Fork on special values; returns np.float64 special or a plain SymFloat."""
        if self.plain:
            return self
        c = cur()
        for flag, val in ((self.nan, np.nan), (self.pinf, np.inf), (self.ninf, -np.inf)):
            if flag is False:
                continue
            if flag is True or c.branch(flag):
                return np.float64(val)
        return mkfloat(self.v)

    def __hash__(self):
        raise Unsupported("hash of a symbolic real")

    def __float__(self):
        r = self.resolve()
        if isinstance(r, SymFloat):
            v = z3.simplify(r.v)
            if z3.is_rational_value(v):
                return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
            raise Unsupported("float() of a symbolic real in foreign code")
        return float(r)

    def __int__(self):
        return int(self.trunc())

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")

    def trunc(self):
        r = self.resolve()
        if not isinstance(r, SymFloat):
            return int(r)
        fl = z3.ToInt(r.v)
        return _mkint(z3.If(r.v >= 0, fl, -z3.ToInt(-r.v)))

    __trunc__ = trunc

    def floor(self):
        r = self.resolve()
        if not isinstance(r, SymFloat):
            return r
        return mkfloat(z3.ToReal(z3.ToInt(r.v)))

    def ceil(self):
        r = self.resolve()
        if not isinstance(r, SymFloat):
            return r
        return mkfloat(z3.ToReal(-z3.ToInt(-r.v)))

    def __floor__(self):
        r = self.resolve()
        return _mkint(z3.ToInt(r.v)) if isinstance(r, SymFloat) else math.floor(r)

    def __ceil__(self):
        r = self.resolve()
        return _mkint(-z3.ToInt(-r.v)) if isinstance(r, SymFloat) else math.ceil(r)

    def rint(self):
        r = self.resolve()
        if not isinstance(r, SymFloat):
            return np.rint(r)
        fl = z3.ToInt(r.v)
        d = r.v - z3.ToReal(fl)
        up = z3.Or(d > rv(0.5), z3.And(d == rv(0.5), fl % 2 == 1))
        return mkfloat(z3.ToReal(z3.If(up, fl + 1, fl)))

    def __round__(self, n=None):
        r = self.resolve()
        if not isinstance(r, SymFloat):
            return round(float(r), n) if n is not None else round(float(r))
        if n is None:
            q = r.rint()
            return q.trunc() if isinstance(q, SymFloat) else int(q)
        if n == 0:
            return r.rint()
        k = 10 ** n
        return (r * k).rint() / k if isinstance(r * k, SymFloat) else np.round(r, n)

    def round(self, decimals=0, **k):
        return self.__round__(decimals)

    def __bool__(self):
        e = bor(self.nan, self.pinf, self.ninf, self.v != 0)
        return e if isinstance(e, bool) else cur().branch(e)

    def isnan(self):
        return tobool(self.nan)

    def isinf(self):
        return tobool(bor(self.pinf, self.ninf))

    def isfinite(self):
        return tobool(bnot(bor(self.nan, self.pinf, self.ninf)))

    def is_integer(self):
        return tobool(z3.IsInt(self.v))

    @property
    def dtype(self):
        return np.dtype(float)

    @property
    def real(self):
        return self

    def conjugate(self):
        return self

    # arithmetic ---------------------------------------------------------------
    def __neg__(self):
        return SymFloat(-self.v, self.nan, self.ninf, self.pinf)

    def __pos__(self):
        return self

    def __abs__(self):
        v = self.v
        return SymFloat(z3.If(v >= 0, v, -v), self.nan, bor(self.pinf, self.ninf), False)

    def sqrt(self):
        return f_sqrt(self)

    def log(self):
        return f_uf("log", self)

    def exp(self):
        return f_uf("exp", self)

    def conj(self):
        return self


def mkfloat(v):
    v = z3.simplify(v)
    if z3.is_rational_value(v):
        fr = Fraction(v.numerator_as_long(), v.denominator_as_long())
        f = float(fr)
        if frac(f) == fr:
            return np.float64(f)
    return SymFloat(v)


def narrow(x, t):
    """x rounded to a shorter float type: some value within half a unit in the last place."""
    if not isinstance(x, Sym):
        with np.errstate(all="ignore"):
            return np.float64(t.type(x))
    x = to_sf(x).resolve()
    if not isinstance(x, SymFloat):
        return x
    from .core import cur
    c = cur()
    r = z3.Real(c.fresh_id("narrow"))
    u = z3.RealVal(1) / (1 << (11 if t.itemsize == 2 else 24))
    ax = z3.If(x.v >= 0, x.v, -x.v)
    d = r - x.v
    c.define(z3.And(d <= ax * u + z3.Q(1, 1 << 25), -d <= ax * u + z3.Q(1, 1 << 25)))
    return SymFloat(r)


def to_sf(o):
    """Number -> SymFloat or np.float64 special; None when not a number."""
    if isinstance(o, SymFloat):
        return o
    if isinstance(o, SymInt):
        return SymFloat(z3.ToReal(o.t))
    if isinstance(o, SymBool):
        return SymFloat(z3.If(o.e, z3.RealVal(1), z3.RealVal(0)))
    if isinstance(o, (bool, np.bool_, int, np.integer)):
        return SymFloat(rv(int(o)))
    if isinstance(o, (float, np.floating)):
        f = float(o)
        if math.isfinite(f):
            return SymFloat(rv(f))
        return SymFloat(z3.RealVal(0), nan=math.isnan(f), pinf=f == math.inf,
                        ninf=f == -math.inf)
    if isinstance(o, Fraction):
        return SymFloat(z3.Q(o.numerator, o.denominator))
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return to_sf(o.item())
    return None


def _special(x):
    """('nan'|'pinf'|'ninf'|None) of a resolved value."""
    if isinstance(x, SymFloat):
        return None
    if math.isnan(x):
        return "nan"
    return "pinf" if x > 0 else ("ninf" if x < 0 and math.isinf(x) else None)


def _spec(x):
    if isinstance(x, SymFloat):
        return None
    f = float(x)
    if math.isnan(f) or math.isinf(f):
        return f
    return None


NAN = np.float64("nan")


def _arith(op, a, b):
    if a.plain and b.plain:
        return _plain_arith(op, a.v, b.v)
    a, b = a.resolve(), b.resolve()
    sa, sb = _spec(a), _spec(b)
    if (sa is not None and math.isnan(sa)) or (sb is not None and math.isnan(sb)):
        return NAN
    if sa is None and sb is None:
        return _plain_arith(op, to_sf(a).v, to_sf(b).v)
    if sa is not None and sb is not None:
        with np.errstate(all="ignore"):
            return {"+": np.add, "-": np.subtract, "*": np.multiply,
                    "/": np.true_divide}[op](np.float64(sa), np.float64(sb))
    if op in "+-":
        return np.float64(sa) if sa is not None else np.float64(sb if op == "+" else -sb)
    fin = to_sf(b if sa is not None else a)
    inf = sa if sa is not None else sb
    if op == "*":
        if cur().branch(fin.v == 0):
            return NAN
        pos = cur().branch(fin.v > 0)
        return np.float64(inf if pos else -inf)
    if sb is not None:
        return np.float64(0.0)
    pos = cur().branch(fin.v >= 0)
    return np.float64(inf if pos else -inf)


def _plain_arith(op, x, y):
    if op == "+":
        return mkfloat(x + y)
    if op == "-":
        return mkfloat(x - y)
    if op == "*":
        return mkfloat(x * y)
    ys = z3.simplify(y)
    if z3.is_rational_value(ys):
        if ys.numerator_as_long() != 0:
            return mkfloat(x / ys)
        zero = True
    else:
        zero = cur().branch(ys == 0)
    if zero:
        if cur().branch(z3.simplify(x == 0)):
            return NAN
        return np.float64(np.inf) if cur().branch(x > 0) else np.float64(-np.inf)
    return mkfloat(div_term(x, ys))


# Division by a non-constant term: a definitional quotient q with q*y == x keeps
# the solver in polynomial arithmetic; equal divisions share the quotient.
def div_term(x, y):
    return x / y


def _f_binop(op, ufn, rev=False):
    def f(self, o):
        if _arrayish(o):
            return _lift(ufn, o, self) if rev else _lift(ufn, self, o)
        if _pandas(o):
            return NotImplemented
        b = to_sf(o)
        if b is None:
            return NotImplemented
        return _arith(op, b, self) if rev else _arith(op, self, b)
    return f


for _n, _op, _u in (("add", "+", np.add), ("sub", "-", np.subtract),
                    ("mul", "*", np.multiply), ("truediv", "/", np.true_divide)):
    setattr(SymFloat, f"__{_n}__", _f_binop(_op, _u))
    setattr(SymFloat, f"__r{_n}__", _f_binop(_op, _u, rev=True))


def f_cmp(op, a, b):
    """Comparison with IEEE treatment of nan and infinities; no forking."""
    sp = not (a.plain and b.plain)
    if op in ("gt", "ge"):
        a, b = b, a
        op = {"gt": "lt", "ge": "le"}[op]
    if op == "lt":
        base = a.v < b.v
    elif op == "le":
        base = a.v <= b.v
    elif op == "eq":
        base = a.v == b.v
    else:
        return bnot(f_cmp("eq", a, b))
    if not sp:
        return base
    nn = band(bnot(a.nan), bnot(b.nan))
    fin_a, fin_b = bnot(bor(a.pinf, a.ninf)), bnot(bor(b.pinf, b.ninf))
    if op == "eq":
        return band(nn, bor(band(a.pinf, b.pinf), band(a.ninf, b.ninf),
                            band(fin_a, fin_b, base)))
    if op == "lt":
        return band(nn, bor(band(a.ninf, bnot(b.ninf)), band(b.pinf, bnot(a.pinf)),
                            band(fin_a, fin_b, base)))
    return band(nn, bor(a.ninf, b.pinf, band(fin_a, fin_b, base)))


def _f_cmpop(op, ufn):
    def f(self, o):
        if _arrayish(o):
            return _lift(ufn, self, o)
        if _pandas(o):
            return NotImplemented
        b = to_sf(o)
        if b is None:
            if op == "eq":
                return False
            if op == "ne":
                return True
            return NotImplemented
        return tobool(f_cmp(op, self, b))
    return f


for _n, _u in (("lt", np.less), ("le", np.less_equal), ("gt", np.greater),
               ("ge", np.greater_equal), ("eq", np.equal), ("ne", np.not_equal)):
    setattr(SymFloat, f"__{_n}__", _f_cmpop(_n, _u))


def f_pow(a, b):
    if not is_sym(b):
        fb = float(b)
        if fb == 0.5:
            return f_sqrt(a)
        if fb == int(fb) and 0 <= fb <= 8:
            r = np.float64(1.0)
            for _ in range(int(fb)):
                r = r * a
            return r
        if fb == int(fb) and -4 <= fb < 0:
            return np.float64(1.0) / f_pow(a, -fb)
    raise Unsupported("power with symbolic exponent")


def _pw(self, o):
    if _arrayish(o):
        return _lift(np.power, self, o)
    if not isinstance(o, numbers.Number) and not is_sym(o):
        return NotImplemented
    return f_pow(self, o)


SymFloat.__pow__ = _pw


def _rpw(self, o):
    if isinstance(o, numbers.Number):
        return f_uf(f"pow_{float(o)}", self)
    return NotImplemented


SymFloat.__rpow__ = _rpw


def _ffd(self, o):
    q = self / o
    return q.floor() if isinstance(q, SymFloat) else np.floor(q)


def _fmod(self, o):
    return self - _ffd(self, o) * o


SymFloat.__floordiv__ = _ffd
SymFloat.__rfloordiv__ = lambda self, o: _ffd(to_sf(o), self)
SymFloat.__mod__ = _fmod
SymFloat.__rmod__ = lambda self, o: _fmod(to_sf(o), self)


def f_sqrt(a):
    a = to_sf(a).resolve()
    if not isinstance(a, SymFloat):
        with np.errstate(all="ignore"):
            return np.sqrt(a)
    v = z3.simplify(a.v)
    if z3.is_rational_value(v):
        fr = Fraction(v.numerator_as_long(), v.denominator_as_long())
        if fr < 0:
            return NAN
        n, d = math.isqrt(fr.numerator), math.isqrt(fr.denominator)
        if n * n == fr.numerator and d * d == fr.denominator:
            return np.float64(n / d)
    t = _square_root_term(v)
    if t is not None:
        return mkfloat(z3.If(t >= 0, t, -t))
    c = cur()
    # z3 hash-conses terms, so the id identifies the term while it is alive
    key = ("sqrt", v.get_id())
    if key in c.defs:
        return c.defs[key]
    if c.branch(v < 0):
        return NAN
    s = z3.Real(c.fresh_id("sqrt"))
    c.keep.append(v)
    c.define(z3.And(s >= 0, s * s == v))
    r = SymFloat(s)
    c.defs[key] = r
    return r


def _square_root_term(v):
    """t when v is literally t*t."""
    if z3.is_app(v):
        k = v.decl().kind()
        if k == z3.Z3_OP_POWER and z3.is_rational_value(v.arg(1)) and \
                v.arg(1).as_fraction() == 2:
            return v.arg(0)
        if k == z3.Z3_OP_MUL and v.num_args() == 2 and v.arg(0).eq(v.arg(1)):
            return v.arg(0)
    return None


_UF = {}


def f_uf(name, a):
    """Uninterpreted real function (its values are arbitrary but consistent)."""
    a = to_sf(a).resolve()
    if not isinstance(a, SymFloat):
        fn = {"log": np.log, "exp": np.exp, "log10": np.log10, "log2": np.log2,
              "log1p": np.log1p, "expm1": np.expm1, "arctan": np.arctan}.get(name)
        if fn is None:
            raise Unsupported(f"{name} of a special value")
        with np.errstate(all="ignore"):
            return fn(a)
    if name in LOGS:
        if cur().branch(a.v <= LOGS[name]):
            return np.float64(-np.inf) if cur().branch(a.v == LOGS[name]) else NAN
    f = _UF.setdefault((name, 1), z3.Function("uf_" + name, z3.RealSort(), z3.RealSort()))
    r = f(a.v)
    if name in INCREASING:
        c = cur()
        seen = c.defs.setdefault(("increasing", name), [])
        if not any(a.v.eq(b) for b in seen):
            zero, at = INCREASING[name]
            c.keep.append(r)
            c.define(z3.And((a.v > zero) == (r > at), (a.v < zero) == (r < at),
                            *[z3.And((a.v > b) == (r > f(b)), (a.v < b) == (r < f(b)))
                              for b in seen]))
            if name == "exp":
                c.define(r > 0)
            seen.append(a.v)
    return SymFloat(r)


LOGS = {"log": 0, "log10": 0, "log2": 0, "log1p": -1}
# strictly increasing functions, with a point each goes through
INCREASING = {"log": (1, 0), "log10": (1, 0), "log2": (1, 0), "log1p": (0, 0), "exp": (0, 1),
              "expm1": (0, 0), "arctan": (0, 0)}


def ite(c, a, b):
    """If-then-else on values; c is SymBool / bool."""
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    if not isinstance(c, SymBool):
        return a if c else b
    ce = c.e
    if a is b:
        return a
    if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
        x = a.e if isinstance(a, SymBool) else bool(a)
        y = b.e if isinstance(b, SymBool) else bool(b)
        return tobool(bite(ce, x, y))
    ia, ib = _ie(a), _ie(b)
    if ia is not None and ib is not None:
        return _mkint(z3.If(ce, ia, ib))
    fa, fb = to_sf(a), to_sf(b)
    if fa is not None and fb is not None:
        r = SymFloat(z3.simplify(z3.If(ce, fa.v, fb.v)), _fl(bite(ce, fa.nan, fb.nan)),
                     _fl(bite(ce, fa.pinf, fb.pinf)), _fl(bite(ce, fa.ninf, fb.ninf)))
        return r
    return a if bool(c) else b


def _fl(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


numbers.Real.register(SymFloat)
