"""Predicates usable on symbolic and on concrete values (properties are written with these)."""
from __future__ import annotations

import math

import numpy as np
import z3

from . import values as V
from .arrays import SymArray, as_sarr
from .core import cur
from .npfuncs import s_isnan, s_truth
from .values import Sym, SymBool, SymFloat, SymInt, ite, tobool

TOL = 1e-6


def conc():
    c = cur()
    return c is None or c.mode == "conc"


def _e(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, Sym):
        return (x != 0).e
    return bool(x)


def _flat(xs):
    out = []
    for x in xs:
        if isinstance(x, np.ndarray):
            out.extend(_flat(list(x.view(np.ndarray).ravel())))
        elif isinstance(x, (list, tuple)) or hasattr(x, "__next__"):
            out.extend(_flat(list(x)))
        else:
            out.append(x)
    return out


def And(*xs):
    return tobool(V.band(*[_e(x) for x in _flat(xs)]))


def Or(*xs):
    return tobool(V.bor(*[_e(x) for x in _flat(xs)]))


def Not(x):
    return tobool(V.bnot(_e(x)))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    ea, eb = _e(a), _e(b)
    if isinstance(ea, bool):
        return tobool(eb if ea else V.bnot(eb))
    if isinstance(eb, bool):
        return tobool(ea if eb else V.bnot(ea))
    return tobool(ea == eb)


If = ite


def isnan(x):
    return s_isnan(x)


def _isnum(x):
    return isinstance(x, (int, float, np.number, bool, np.bool_, Sym))


def eq(a, b):
    """Equality of numbers; nan equals nan; tolerance only on concrete replays."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return eq_arr(a, b)
    if not (_isnum(a) and _isnum(b)):
        return np.bool_(a == b)
    if isinstance(a, Sym) or isinstance(b, Sym):
        fa, fb = V.to_sf(a), V.to_sf(b)
        e = V.f_cmp("eq", fa, fb)
        return tobool(V.bor(e, V.band(fa.nan, fb.nan)))
    fa, fb = float(a), float(b)
    if math.isnan(fa) or math.isnan(fb):
        return np.bool_(math.isnan(fa) and math.isnan(fb))
    if math.isinf(fa) or math.isinf(fb):
        return np.bool_(fa == fb)
    if not conc():
        return np.bool_(fa == fb or math.isclose(fa, fb, rel_tol=1e-9, abs_tol=1e-12))
    return np.bool_(math.isclose(fa, fb, rel_tol=TOL, abs_tol=TOL))


def eq_arr(a, b):
    a, b = _arr(a), _arr(b)
    if a.shape != b.shape:
        return np.bool_(False)
    return And(*[eq(x, y) for x, y in zip(a.ravel(), b.ravel())])


def _arr(a):
    if isinstance(a, np.ndarray):
        return a.view(np.ndarray)
    if hasattr(a, "to_numpy"):
        return a.to_numpy()
    if isinstance(a, (list, tuple)):
        return as_sarr(a).view(np.ndarray)
    return np.asarray(a, dtype=object)


def el(a, *idx):
    """Element of an array-like."""
    if hasattr(a, "to_numpy"):
        a = a.to_numpy()
    r = a[idx] if len(idx) > 1 else a[idx[0]]
    return r


def le(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a <= b
    return np.bool_(float(a) <= float(b) + (TOL if conc() else 1e-12))


def ge(a, b):
    return le(b, a)


def lt(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a < b
    return np.bool_(a < b)


def ieq(a, b):
    """Integer equality."""
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a == b
    return np.bool_(a == b)


def mx(xs):
    r = xs[0]
    for x in xs[1:]:
        r = ite(x > r, x, r)
    return r


def mn(xs):
    r = xs[0]
    for x in xs[1:]:
        r = ite(x < r, x, r)
    return r


def total(xs):
    from .npfuncs import lin_sum
    xs = list(xs)
    if not xs:
        return np.float64(0)
    return lin_sum(xs)


def count(bs):
    return total([ite(b, np.int64(1), np.int64(0)) if isinstance(b, SymBool) else np.int64(bool(b))
                  for b in bs]) if bs else np.int64(0)


def absv(x):
    return abs(x)


def matrix(ctx, name, n, m, lo=None, hi=None, nan=False):
    mk = ctx.real_or_nan if nan else ctx.real
    o = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            o[i, j] = mk(f"{name}[{i},{j}]", lo, hi)
    return finish(ctx, o, "f")


def vector(ctx, name, n, lo=None, hi=None):
    o = np.empty(n, dtype=object)
    for i in range(n):
        o[i] = ctx.real(f"{name}[{i}]", lo, hi)
    return finish(ctx, o, "f")


def ivector(ctx, name, n, lo, hi):
    o = np.empty(n, dtype=object)
    for i in range(n):
        o[i] = ctx.int(f"{name}[{i}]", lo, hi)
    return finish(ctx, o, "i")


def imatrix(ctx, name, n, m, lo, hi):
    o = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            o[i, j] = ctx.int(f"{name}[{i},{j}]", lo, hi)
    return finish(ctx, o, "i")


def bmatrix(ctx, name, n, m):
    o = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            o[i, j] = ctx.bool(f"{name}[{i},{j}]")
    return finish(ctx, o, "b")


def bvector(ctx, name, n):
    o = np.empty(n, dtype=object)
    for i in range(n):
        o[i] = ctx.bool(f"{name}[{i}]")
    return finish(ctx, o, "b")


def finish(ctx, o, kind):
    if ctx.mode == "conc":
        return o.astype({"f": float, "i": np.int64, "b": bool}[kind])
    return SymArray.of(o, kind)


def const(ctx, a, kind=None):
    a = np.asarray(a)
    return a if ctx.mode == "conc" else as_sarr(a, kind)


def raw(a):
    """Plain object/number ndarray view for element access in predicates."""
    return _arr(a)


def copy(a):
    return a.copy()


def attempt(fn):
    """(result, exception) of running code under test."""
    try:
        return fn(), None
    except Exception as e:  # noqa: BLE001
        return None, e


_ = (z3, SymFloat, SymInt, s_truth)


def uf(name, *args, conc_fn=None):
    """Uninterpreted real function of reals in symbolic mode; conc_fn on replays."""
    if conc():
        return conc_fn(*args)
    fs = [V.to_sf(a).resolve() for a in args]
    if not all(isinstance(f, SymFloat) for f in fs):
        terms = []
        for f in fs:
            if isinstance(f, SymFloat):
                terms.append(f.v)
            elif math.isfinite(f):
                terms.append(V.rv(f))
            else:
                return V.NAN
    else:
        terms = [f.v for f in fs]
    g = z3.Function(f"uf_{name}_{len(terms)}", *([z3.RealSort()] * (len(terms) + 1)))
    return SymFloat(g(*terms))


def sort_vals(xs):
    """Values in increasing order (exchange network, no forks)."""
    xs = list(xs)
    for i in range(len(xs)):
        for j in range(len(xs) - 1 - i):
            a, b = xs[j], xs[j + 1]
            c = a <= b
            xs[j], xs[j + 1] = ite(c, a, b), ite(c, b, a)
    return xs


def median(xs):
    s = sort_vals(xs)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2.0


def quantile_mid(xs, q):
    s = sort_vals(xs)
    h = (len(s) - 1) * q
    lo, hi = math.floor(h), math.ceil(h)
    return s[lo] if lo == hi else (s[lo] + s[hi]) / 2.0


def distinct(xs):
    xs = list(xs)
    return And(*[Not(eq(xs[i], xs[j])) for i in range(len(xs)) for j in range(i)])


def names(pre, n):
    """Labels that are not in alphabetical order."""
    return [f"{pre}{(7 * j + 4) % 11}" for j in range(n)]
