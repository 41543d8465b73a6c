"""Symbolic models of the numpy functions (structural ones delegate to numpy itself)."""
from __future__ import annotations

import functools
import math
from fractions import Fraction

import numpy as np
import z3

from . import values as V
from .arrays import (ORDER, SymArray, as_sarr, coerce_kind, conc_key, conc_mask, elem1,
                     has_sym, infer_kind, join, kind_of_dtype, kind_of_val, norm_scalar)
from .core import Unsupported, cur
from .values import Sym, SymBool, SymFloat, SymInt, ite, tobool

# ---------------------------------------------------------------- scalar helpers


def s_isnan(x):
    if isinstance(x, SymFloat):
        return x.isnan()
    if isinstance(x, Sym):
        return np.bool_(False)
    return np.isnan(x)


def s_isinf(x):
    if isinstance(x, SymFloat):
        return x.isinf()
    if isinstance(x, Sym):
        return np.bool_(False)
    return np.isinf(x)


def s_isfinite(x):
    if isinstance(x, SymFloat):
        return x.isfinite()
    if isinstance(x, Sym):
        return np.bool_(True)
    return np.isfinite(x)


def s_abs(x):
    return abs(x)


def s_sign(x):
    if isinstance(x, SymInt):
        return V._mkint(z3.If(x.t > 0, z3.IntVal(1), z3.If(x.t < 0, z3.IntVal(-1), z3.IntVal(0))))
    if isinstance(x, SymFloat):
        if x.nan is not False:
            r = x.resolve()
            if not isinstance(r, SymFloat):
                return np.sign(r)
            x = r
        return SymFloat(z3.If(x.v > 0, z3.RealVal(1), z3.If(x.v < 0, z3.RealVal(-1),
                                                            z3.RealVal(0))))
    return np.sign(x)


def s_not(x):
    if isinstance(x, SymBool):
        return ~x
    if isinstance(x, Sym):
        return x == 0
    return np.bool_(not x)


def s_truth(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        return x != 0
    return np.bool_(bool(x))


def s_and(a, b):
    return s_truth(a) & s_truth(b)


def s_or(a, b):
    return s_truth(a) | s_truth(b)


def s_xor(a, b):
    return s_truth(a) ^ s_truth(b)


def s_max(a, b, nanp=True):
    """np.maximum: nan propagates."""
    if nanp:
        na, nb = s_isnan(a), s_isnan(b)
        r = ite(_b(a >= b), a, b)
        if _f(na) and _f(nb):
            return r
        return ite(na, a, ite(nb, b, r))
    return ite(_b(a >= b), a, b)


def s_min(a, b, nanp=True):
    if nanp:
        na, nb = s_isnan(a), s_isnan(b)
        r = ite(_b(a <= b), a, b)
        if _f(na) and _f(nb):
            return r
        return ite(na, a, ite(nb, b, r))
    return ite(_b(a <= b), a, b)


def _f(x):
    return not isinstance(x, Sym) and not x


def _b(x):
    return x


def s_fmax(a, b):
    return ite(s_isnan(a), b, ite(s_isnan(b), a, s_max(a, b, False)))


def s_fmin(a, b):
    return ite(s_isnan(a), b, ite(s_isnan(b), a, s_min(a, b, False)))


def s_sqrt(x):
    return V.f_sqrt(x) if isinstance(x, Sym) else np.sqrt(np.float64(x))


def _fl1(name, npf):
    def f(x):
        if isinstance(x, SymBool):
            x = x.as_int()
        if isinstance(x, SymInt):
            if name in ("floor", "ceil", "rint", "trunc"):
                return x.as_float()
            x = x.as_float()
        if isinstance(x, SymFloat):
            if name == "trunc":
                t = x.trunc()
                return coerce_kind(t, "f")
            return getattr(x, name)()
        return npf(x)
    return f


def s_uf(name, npf):
    def f(x):
        if isinstance(x, Sym):
            return V.f_uf(name, x)
        return npf(x)
    return f


def s_div(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return V._arith("/", V.to_sf(a), V.to_sf(b))
    with np.errstate(all="ignore"):
        return np.true_divide(a, b)


def _wrapop(fn):
    def f(a, b):
        if isinstance(a, Sym) or isinstance(b, Sym):
            return fn(a, b)
        with np.errstate(all="ignore"):
            return fn(a, b)
    return f


def s_add(a, b):
    if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
        return s_or(a, b)
    return a + b


def s_mul(a, b):
    if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
        return s_and(a, b)
    # exact zero times a finite symbolic value
    return a * b


def s_pow(a, b):
    if isinstance(a, SymFloat) or isinstance(b, SymFloat):
        if isinstance(a, Sym):
            return V.f_pow(V.to_sf(a), b)
    return a ** b


BIN = {
    "add": (s_add, None), "subtract": (lambda a, b: a - b, None),
    "multiply": (s_mul, None), "true_divide": (s_div, "f"), "divide": (s_div, "f"),
    "floor_divide": (lambda a, b: a // b, None), "remainder": (lambda a, b: a % b, None),
    "power": (s_pow, None), "float_power": (s_pow, "f"),
    "maximum": (s_max, None), "minimum": (s_min, None),
    "fmax": (s_fmax, None), "fmin": (s_fmin, None),
    "less": (lambda a, b: a < b, "b"), "less_equal": (lambda a, b: a <= b, "b"),
    "greater": (lambda a, b: a > b, "b"), "greater_equal": (lambda a, b: a >= b, "b"),
    "equal": (lambda a, b: a == b, "b"), "not_equal": (lambda a, b: a != b, "b"),
    "logical_and": (s_and, "b"), "logical_or": (s_or, "b"), "logical_xor": (s_xor, "b"),
    "bitwise_and": (lambda a, b: a & b, None), "bitwise_or": (lambda a, b: a | b, None),
    "bitwise_xor": (lambda a, b: a ^ b, None),
}
UN = {
    "negative": (lambda a: -a, None), "positive": (lambda a: a, None),
    "absolute": (s_abs, None), "fabs": (s_abs, "f"), "sign": (s_sign, None),
    "isnan": (s_isnan, "b"), "isinf": (s_isinf, "b"), "isfinite": (s_isfinite, "b"),
    "sqrt": (s_sqrt, "f"), "square": (lambda a: a * a, None),
    "floor": (_fl1("floor", np.floor), "f"), "ceil": (_fl1("ceil", np.ceil), "f"),
    "rint": (_fl1("rint", np.rint), "f"), "trunc": (_fl1("trunc", np.trunc), "f"),
    "log": (s_uf("log", np.log), "f"), "exp": (s_uf("exp", np.exp), "f"),
    "log10": (s_uf("log10", np.log10), "f"), "log2": (s_uf("log2", np.log2), "f"),
    "log1p": (s_uf("log1p", np.log1p), "f"), "expm1": (s_uf("expm1", np.expm1), "f"),
    "sin": (s_uf("sin", np.sin), "f"), "cos": (s_uf("cos", np.cos), "f"),
    "arctan": (s_uf("arctan", np.arctan), "f"),
    "logical_not": (s_not, "b"),
    "invert": (lambda a: ~a, None), "conjugate": (lambda a: a, None),
    "reciprocal": (lambda a: s_div(np.float64(1), a), None),
}


def ident_of(name, kind):
    if name == "add":
        return {"b": np.int64(0), "i": np.int64(0)}.get(kind, np.float64(0))
    if name == "multiply":
        return {"b": np.int64(1), "i": np.int64(1)}.get(kind, np.float64(1))
    if name == "logical_and":
        return np.bool_(True)
    if name == "logical_or":
        return np.bool_(False)
    return None


def wrap_out(objarr, kind):
    """0-d results become scalars, like numpy."""
    if not isinstance(objarr, np.ndarray):
        return objarr
    if objarr.ndim == 0:
        return objarr.item() if objarr.dtype == object else objarr[()]
    return SymArray.of(objarr, kind)


def ufunc(uf, method, inputs, kw):
    name = uf.__name__
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    dtype = kw.pop("dtype", None)
    if isinstance(out, tuple):
        out = out[0]
    if method == "__call__":
        if name in UN and len(inputs) == 1:
            fn, k = UN[name]
            a = as_sarr(inputs[0])
            kind = k or a.kind
            r = elem1(fn, a, kind if kind != "O" else None)
            if r.ndim == 0:
                r = r.item()
        elif name in BIN and len(inputs) == 2:
            fn, k = BIN[name]
            r = binop(fn, k, inputs[0], inputs[1], name)
        elif name == "matmul":
            r = matmul(*inputs)
        elif name == "divmod":
            return (ufunc(np.floor_divide, method, inputs, {}),
                    ufunc(np.remainder, method, inputs, {}))
        elif name == "isclose":
            r = None
        elif name in ("arctan2", "hypot"):
            if name == "hypot":
                r = binop(lambda a, b: s_sqrt(a * a + b * b), "f", *inputs)
            else:
                r = fallback(uf, inputs, kw)
        else:
            r = fallback(uf, inputs, kw)
        if dtype is not None:
            kd = kind_of_dtype(dtype)
            r = elem1(lambda x: coerce_kind(x, kd), as_sarr(r), kd)
        if where is not True:
            w = as_sarr(where)
            base = as_sarr(out) if out is not None else as_sarr(np.zeros(np.shape(r)))
            r = where3(w, r, base)
        if out is not None:
            out[...] = r
            return out
        return r
    if method == "reduce":
        axis = kw.get("axis", 0)
        keep = kw.get("keepdims", False)
        init = kw.get("initial", np._NoValue)
        fn = BIN[name][0]
        a = as_sarr(inputs[0])
        if name == "add":
            return r_sum(a, axis, keep, init=init)
        red = lambda xs: functools.reduce(fn, xs)  # noqa: E731
        r = reduce_axis(a, axis, keep, red, BIN[name][1] or a.kind, ident_of(name, a.kind))
        return r
    if method == "accumulate":
        axis = kw.get("axis", 0)
        return accumulate(as_sarr(inputs[0]), BIN[name][0], axis)
    if method == "outer":
        a, b = as_sarr(inputs[0]), as_sarr(inputs[1])
        fn, k = BIN[name]
        return binop(fn, k, a.reshape(a.shape + (1,) * b.ndim), b, name)
    if method == "at":
        a, idx, *b = inputs
        idx = conc_key(idx)
        if b:
            for j, i in enumerate(np.atleast_1d(idx)):
                v = b[0] if np.ndim(b[0]) == 0 else b[0][j]
                a[i] = BIN[name][0](a[i], v)
            return None
    raise Unsupported(f"ufunc {name}.{method}")


def binop(fn, k, x, y, name=None):
    if type(x).__module__.startswith("pandas") or type(y).__module__.startswith("pandas"):
        x = x.to_numpy() if hasattr(x, "to_numpy") else x
        y = y.to_numpy() if hasattr(y, "to_numpy") else y
    a, b = as_sarr(x), as_sarr(y)
    kind = k or (join(a.kind, b.kind) if "O" not in (a.kind, b.kind) else "O")
    if name in ("add", "subtract") and kind == "b":
        kind = "b"
    if name == "power" and kind == "i":
        kind = None
    ba, bb = np.broadcast_arrays(a.view(np.ndarray), b.view(np.ndarray))
    out = np.empty(ba.shape, dtype=object)
    for idx in np.ndindex(*ba.shape):
        u, v = ba[idx], bb[idx]
        if isinstance(u, Sym) or isinstance(v, Sym):
            out[idx] = fn(u, v)
        else:
            with np.errstate(all="ignore"):
                out[idx] = norm_scalar(fn(u, v))
    if k == "b":
        for idx in np.ndindex(*out.shape):
            e = out[idx]
            if isinstance(e, bool) or e is NotImplemented:
                out[idx] = np.bool_(bool(e) if e is not NotImplemented else False)
    elif kind == "f":
        for idx in np.ndindex(*out.shape):
            out[idx] = coerce_kind(out[idx], "f")
    return wrap_out(out, kind if kind != "O" else None)


# ---------------------------------------------------------------- reductions


def reduce_axis(a, axis, keep, red, kind, ident=None):
    a = as_sarr(a)
    b = a.view(np.ndarray)
    if isinstance(axis, (list, tuple)):
        axes = sorted(x % b.ndim for x in axis)
        if len(axes) == b.ndim:
            axis = None
        elif len(axes) == 1:
            axis = axes[0]
        else:
            rest = [i for i in range(b.ndim) if i not in axes]
            b2 = b.transpose(rest + axes).reshape([b.shape[i] for i in rest] + [-1])
            r = reduce_axis(SymArray.of(b2, a.kind), len(rest), False, red, kind, ident)
            return np.expand_dims(r, tuple(axes)) if keep else r
    if axis is None:
        xs = list(b.reshape(-1))
        r = red(xs) if xs else _empty(ident)
        if keep:
            o = np.empty((1,) * b.ndim, dtype=object)
            o[(0,) * b.ndim] = r
            return SymArray.of(o, kind)
        return r
    axis = int(axis)
    if axis < 0:
        axis += b.ndim
    if axis >= b.ndim or axis < 0:
        raise np.exceptions.AxisError(axis, b.ndim)
    m = np.moveaxis(b, axis, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    for idx in np.ndindex(*m.shape[:-1]):
        xs = list(m[idx])
        out[idx] = red(xs) if xs else _empty(ident)
    if keep:
        out = np.expand_dims(out, axis)
    return wrap_out(out, kind if kind != "O" else None)


def _empty(ident):
    if ident is None:
        raise ValueError("zero-size array to reduction operation which has no identity")
    return ident


def _num(x):
    if isinstance(x, SymBool):
        return x.as_int()
    if isinstance(x, (bool, np.bool_)):
        return np.int64(x)
    return x


def lin_sum(xs):
    """Sum of scalars; plain symbolic reals are summed in one z3 term."""
    xs = [_num(x) for x in xs]
    if all(isinstance(x, (SymInt, int, np.integer)) for x in xs):
        if any(isinstance(x, SymInt) for x in xs):
            return V._mkint(z3.Sum([V._ie(x) for x in xs]))
        return norm_scalar(sum(int(x) for x in xs))
    fs = [V.to_sf(x) for x in xs]
    if all(f is not None and f.plain for f in fs):
        if any(isinstance(x, Sym) for x in xs):
            return V.mkfloat(z3.Sum([f.v for f in fs]))
        return np.float64(np.sum(np.array([float(x) for x in xs])))
    r = xs[0]
    for x in xs[1:]:
        r = r + x
    return r


def r_sum(a, axis=None, keepdims=False, init=np._NoValue, **k):
    a = as_sarr(a)
    kind = "f" if a.kind == "f" else ("i" if a.kind in "bi" else "O")
    ident = np.float64(0) if kind == "f" else np.int64(0)
    def red(xs):
        if init is not np._NoValue and init is not None and init != 0:
            xs = [init, *xs]
        return lin_sum(xs)
    return reduce_axis(a, axis, bool(keepdims) and keepdims is not np._NoValue, red, kind, ident)


def _kd(keepdims):
    return bool(keepdims) if keepdims is not np._NoValue else False


def prod_of(xs):
    r = None
    for x in xs:
        x = _num(x)
        r = x if r is None else r * x
    return r


def r_prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = as_sarr(a)
    return reduce_axis(a, axis, _kd(keepdims), prod_of, "f" if a.kind == "f" else "i",
                       np.float64(1) if a.kind == "f" else np.int64(1))


def mean_of(xs):
    if not xs:
        return V.NAN
    s = lin_sum(xs)
    return s_div(s, np.float64(len(xs)))


def r_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = as_sarr(a)
    return reduce_axis(a, axis, _kd(keepdims), mean_of, "f", V.NAN)


def var_of(xs, ddof=0):
    n = len(xs)
    m = mean_of(xs)
    d = [(x - m) for x in xs]
    s = lin_sum([x * x for x in d])
    return s_div(s, np.float64(n - ddof) if n - ddof > 0 else np.float64(0))


def r_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return reduce_axis(as_sarr(a), axis, _kd(keepdims), lambda xs: var_of(xs, ddof), "f", V.NAN)


def r_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return reduce_axis(as_sarr(a), axis, _kd(keepdims),
                       lambda xs: s_sqrt(var_of(xs, ddof)), "f", V.NAN)


def drop_nan(xs):
    return [x for x in xs if not bool(s_isnan(x))]


def _nan_red(f):
    def g(xs):
        ys = drop_nan(xs)
        return f(ys) if ys else V.NAN
    return g


def _nanmean(xs):
    """Without forking on which entries are missing: sum / count as a table over the count."""
    fs = [V.to_sf(x) for x in xs]
    if not any(isinstance(f, SymFloat) and not isinstance(f.nan, bool) for f in fs) or \
            any(f.pinf is not False or f.ninf is not False for f in fs):
        return _nan_red(mean_of)(xs)
    num = z3.Sum([z3.RealVal(0) if f.nan is True else f.v if f.nan is False
                  else z3.If(f.nan, z3.RealVal(0), f.v) for f in fs])
    cnt = z3.Sum([z3.IntVal(0 if f.nan else 1) if isinstance(f.nan, bool)
                  else z3.If(f.nan, z3.IntVal(0), z3.IntVal(1)) for f in fs])
    r = num
    for c in range(2, len(fs) + 1):
        r = z3.If(cnt == c, num / c, r)
    return SymFloat(r, nan=z3.simplify(cnt == 0))


def r_nanmean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return reduce_axis(as_sarr(a), axis, _kd(keepdims), _nanmean, "f", V.NAN)


def r_nanstd(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    def f(ys):
        if len(ys) - ddof <= 0:
            return V.NAN
        return s_sqrt(var_of(ys, ddof))
    return reduce_axis(as_sarr(a), axis, _kd(keepdims), _nan_red(f), "f", V.NAN)


def r_nanvar(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    def f(ys):
        if len(ys) - ddof <= 0:
            return V.NAN
        return var_of(ys, ddof)
    return reduce_axis(as_sarr(a), axis, _kd(keepdims), _nan_red(f), "f", V.NAN)


def r_nansum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    def f(xs):
        return lin_sum([ite(s_isnan(x), np.float64(0), x) for x in xs])
    return reduce_axis(as_sarr(a), axis, _kd(keepdims), f, "f", np.float64(0))


def _mm(fn):
    def r(a, axis=None, out=None, keepdims=False, initial=np._NoValue, **k):
        a = as_sarr(a)
        def red(xs):
            if initial is not np._NoValue:
                xs = [initial, *xs]
            return functools.reduce(fn, xs)
        return reduce_axis(a, axis, _kd(keepdims), red, a.kind,
                           initial if initial is not np._NoValue else None)
    return r


r_max, r_min = _mm(s_max), _mm(s_min)
r_nanmax, r_nanmin = _mm(s_fmax), _mm(s_fmin)


def all_of(xs):
    r = np.bool_(True)
    es = []
    for x in xs:
        x = s_truth(x)
        if isinstance(x, SymBool):
            es.append(x.e)
        elif not x:
            return np.bool_(False)
    return tobool(V.band(*es)) if es else r


def any_of(xs):
    es = []
    for x in xs:
        x = s_truth(x)
        if isinstance(x, SymBool):
            es.append(x.e)
        elif x:
            return np.bool_(True)
    return tobool(V.bor(*es)) if es else np.bool_(False)


def r_all(a, axis=None, out=None, keepdims=False, **k):
    return reduce_axis(as_sarr(a), axis, _kd(keepdims), all_of, "b", np.bool_(True))


def r_any(a, axis=None, out=None, keepdims=False, **k):
    return reduce_axis(as_sarr(a), axis, _kd(keepdims), any_of, "b", np.bool_(False))


def _argbest(xs, better):
    """Index of the first best element; NaN counts as best (numpy)."""
    best, bi = xs[0], np.int64(0)
    for i, x in enumerate(xs[1:], 1):
        nb = s_isnan(best)
        nx = s_isnan(x)
        take = s_and(s_not(nb), s_or(nx, better(x, best)))
        bi = ite(take, np.int64(i), bi)
        best = ite(take, x, best)
    return bi


def r_argmax(a, axis=None, out=None, keepdims=False, **k):
    return reduce_axis(as_sarr(a), axis, _kd(keepdims),
                       lambda xs: _argbest([_num(x) for x in xs], lambda x, y: x > y), "i")


def r_argmin(a, axis=None, out=None, keepdims=False, **k):
    return reduce_axis(as_sarr(a), axis, _kd(keepdims),
                       lambda xs: _argbest([_num(x) for x in xs], lambda x, y: x < y), "i")


def _nanarg(a, better, axis):
    def f(xs):
        c = [(i, x) for i, x in enumerate(xs) if not bool(s_isnan(x))]
        if not c:
            raise ValueError("All-NaN slice encountered")
        bi, best = np.int64(c[0][0]), c[0][1]
        for i, x in c[1:]:
            t = better(x, best)
            bi, best = ite(t, np.int64(i), bi), ite(t, x, best)
        return bi
    return reduce_axis(as_sarr(a), axis, False, f, "i")


def r_nanargmax(a, axis=None, **k):
    return _nanarg(a, lambda x, y: x > y, axis)


def r_nanargmin(a, axis=None, **k):
    return _nanarg(a, lambda x, y: x < y, axis)


# ---------------------------------------------------------------- sorting


def lt_nanlast(a, b):
    """a sorts strictly before b."""
    na, nb = s_isnan(a), s_isnan(b)
    r = a < b
    if _f(na) and _f(nb):
        return r
    return s_and(s_not(na), s_or(nb, r))


def py_sort(xs, key=None):
    """Stable insertion sort, forking on symbolic comparisons."""
    out = []
    for x in xs:
        kx = key(x) if key else x
        pos = len(out)
        while pos > 0:
            kp = key(out[pos - 1]) if key else out[pos - 1]
            if bool(lt_nanlast(kx, kp)):
                pos -= 1
            else:
                break
        out.insert(pos, x)
    return out


def sort_net(xs):
    """Sorting by min/max exchanges: no forking (values only)."""
    xs = list(xs)
    n = len(xs)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = xs[j], xs[j + 1]
            c = lt_nanlast(b, a)
            xs[j], xs[j + 1] = ite(c, b, a), ite(c, a, b)
    return xs


def r_sort(a, axis=-1, kind=None, order=None, **k):
    a = as_sarr(a).copy()
    if axis is None:
        a = a.ravel()
        axis = -1
    m = np.moveaxis(a.view(np.ndarray), axis, -1)
    for idx in np.ndindex(*m.shape[:-1]):
        col = list(m[idx])
        srt = sort_net(col) if has_sym(col) else py_sort(col)
        for i, x in enumerate(srt):
            m[idx][i] = x
    return a


def meth_sort(self, axis=-1, kind=None, order=None, **k):
    self[...] = r_sort(self, axis)


def r_argsort(a, axis=-1, kind=None, order=None, **k):
    a = as_sarr(a)
    if axis is None:
        a = a.ravel()
        axis = -1
    b = np.moveaxis(a.view(np.ndarray), axis, -1)
    out = np.empty(b.shape, dtype=object)
    for idx in np.ndindex(*b.shape[:-1]):
        col = b[idx]
        perm = py_sort(list(range(len(col))), key=lambda i: _num(col[i]))
        for i, p in enumerate(perm):
            out[idx][i] = np.int64(p)
    return SymArray.of(np.moveaxis(out, -1, axis), "i")


def median_of(xs):
    if not xs:
        return V.NAN
    if any(not _f(s_isnan(x)) for x in xs):
        if bool(any_of([s_isnan(x) for x in xs])):
            return V.NAN
    s = sort_net(xs)
    n = len(s)
    if n % 2:
        return coerce_kind(s[n // 2], "f")
    return s_div(s[n // 2 - 1] + s[n // 2], np.float64(2))


def r_median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    return reduce_axis(as_sarr(a), axis, _kd(keepdims), median_of, "f", V.NAN)


def r_nanmedian(a, axis=None, out=None, overwrite_input=False, keepdims=False, **k):
    return reduce_axis(as_sarr(a), axis, _kd(keepdims), _nan_red(median_of), "f", V.NAN)


def quant_of(xs, q, method="linear"):
    s = sort_net(xs)
    n = len(s)
    h = (n - 1) * float(q)
    lo, hi = int(math.floor(h)), int(math.ceil(h))
    if method == "linear":
        fr = h - lo
        if fr == 0:
            return s[lo]
        return s[lo] + (s[hi] - s[lo]) * np.float64(fr)
    if method == "midpoint":
        return s_div(s[lo] + s[hi], np.float64(2)) if lo != hi else s[lo]
    if method == "lower":
        return s[lo]
    if method == "higher":
        return s[hi]
    raise Unsupported(f"quantile method {method}")


def r_quantile(a, q, axis=None, out=None, overwrite_input=False, method="linear",
               keepdims=False, interpolation=None, scale=1.0, omit=False):
    method = interpolation or method
    qs = np.atleast_1d(np.asarray(native_of(q), dtype=float)) / scale
    def one(q):
        def g(xs):
            if any(not _f(s_isnan(x)) for x in xs) and bool(any_of([s_isnan(x) for x in xs])):
                return V.NAN
            return coerce_kind(quant_of(xs, q, method), "f")
        return _nan_red(g) if omit else g
    rs = [reduce_axis(as_sarr(a), axis, _kd(keepdims), one(q1), "f") for q1 in qs]
    if np.ndim(q) == 0:
        return rs[0]
    return as_sarr(rs)


def r_percentile(a, q, axis=None, out=None, overwrite_input=False, method="linear",
                 keepdims=False, interpolation=None):
    return r_quantile(a, q, axis, out, overwrite_input, method, keepdims, interpolation, 100.0)


def r_nanquantile(a, q, axis=None, out=None, overwrite_input=False, method="linear",
                  keepdims=False, **k):
    return r_quantile(a, q, axis, out, overwrite_input, method, keepdims, None, 1.0, True)


def r_nanpercentile(a, q, axis=None, out=None, overwrite_input=False, method="linear",
                    keepdims=False, **k):
    return r_quantile(a, q, axis, out, overwrite_input, method, keepdims, None, 100.0, True)


# ---------------------------------------------------------------- linear algebra


def dot1(xs, ys):
    return lin_sum([_num(a) * _num(b) for a, b in zip(xs, ys)]) if len(xs) else np.float64(0)


def matmul(a, b):
    a, b = as_sarr(a), as_sarr(b)
    kind = "f" if "f" in (a.kind, b.kind) else "i"
    A, B = a.view(np.ndarray), b.view(np.ndarray)
    if A.ndim == 0 or B.ndim == 0:
        return binop(s_mul, None, a, b)
    sA = A.reshape(1, -1) if A.ndim == 1 else A
    sB = B.reshape(-1, 1) if B.ndim == 1 else B
    if sA.shape[-1] != sB.shape[-2]:
        raise ValueError(f"shapes {A.shape} and {B.shape} not aligned")
    if sA.ndim > 2 or sB.ndim > 2:
        raise Unsupported("batched matmul")
    out = np.empty((sA.shape[0], sB.shape[1]), dtype=object)
    for i in range(out.shape[0]):
        for j in range(out.shape[1]):
            out[i, j] = dot1(list(sA[i]), list(sB[:, j]))
    if A.ndim == 1 and B.ndim == 1:
        return out[0, 0]
    if A.ndim == 1:
        out = out[0]
    elif B.ndim == 1:
        out = out[:, 0]
    return SymArray.of(out, kind)


def r_norm(x, ord=None, axis=None, keepdims=False):
    x = as_sarr(x)
    if ord in (None, 2, "fro"):
        red = lambda xs: s_sqrt(lin_sum([v * v for v in xs]))  # noqa: E731
        if ord == 2 and axis is None and x.ndim > 1:
            raise Unsupported("spectral norm")
    elif ord == 1 and (axis is not None or x.ndim == 1):
        red = lambda xs: lin_sum([abs(v) for v in xs])  # noqa: E731
    elif ord == np.inf and (axis is not None or x.ndim == 1):
        red = lambda xs: functools.reduce(s_max, [abs(v) for v in xs])  # noqa: E731
    else:
        raise Unsupported(f"norm ord={ord}")
    return reduce_axis(x, axis, keepdims, red, "f")


def r_cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    X = as_sarr(m)
    if X.ndim == 1:
        X = X.reshape(1, -1)
    elif not rowvar:
        X = X.T
    if y is not None:
        Y = as_sarr(y)
        if Y.ndim == 1:
            Y = Y.reshape(1, -1)
        elif not rowvar:
            Y = Y.T
        X = SymArray.of(np.concatenate([X.view(np.ndarray), Y.view(np.ndarray)]), "f")
    if ddof is None:
        ddof = 0 if bias else 1
    n = X.shape[1]
    b = X.view(np.ndarray)
    cen = [[x - mean_of(list(b[i])) for x in b[i]] for i in range(b.shape[0])]
    out = np.empty((b.shape[0],) * 2, dtype=object)
    for i in range(b.shape[0]):
        for j in range(b.shape[0]):
            out[i, j] = s_div(dot1(cen[i], cen[j]), np.float64(n - ddof))
    if out.shape == (1, 1):
        return out[0, 0]
    return SymArray.of(out, "f")


def r_corrcoef(x, y=None, rowvar=True, **k):
    c = r_cov(x, y, rowvar)
    if not isinstance(c, np.ndarray):
        return s_div(c, c)
    b = c.view(np.ndarray)
    sd = [s_sqrt(b[i, i]) for i in range(len(b))]
    out = np.empty(b.shape, dtype=object)
    for i in range(len(b)):
        for j in range(len(b)):
            out[i, j] = s_div(s_div(b[i, j], sd[i]), sd[j])
    return SymArray.of(out, "f")


def r_inv(a):
    a = as_sarr(a)
    n = a.shape[0]
    b = a.view(np.ndarray)
    if n > 1 and not any(isinstance(v, V.Sym) for v in b.ravel()):
        return _inv_exact(b)
    if n == 1:
        out = np.empty((1, 1), dtype=object)
        out[0, 0] = s_div(np.float64(1), b[0, 0])
        return SymArray.of(out, "f")
    if n == 2:
        det = b[0, 0] * b[1, 1] - b[0, 1] * b[1, 0]
        if bool(det == 0):
            raise np.linalg.LinAlgError("Singular matrix")
        out = np.empty((2, 2), dtype=object)
        out[0, 0], out[1, 1] = s_div(b[1, 1], det), s_div(b[0, 0], det)
        out[0, 1], out[1, 0] = s_div(-b[0, 1], det), s_div(-b[1, 0], det)
        return SymArray.of(out, "f")
    raise Unsupported("matrix inverse beyond 2x2")


def r_solve(a, b):
    return matmul(r_inv(a), b)


def _inv_exact(b):
    """Inverse of a matrix of numbers in exact arithmetic."""
    n = len(b)
    m = [[V.frac(float(v)) for v in row] + [Fraction(int(i == j)) for j in range(n)]
         for i, row in enumerate(b)]
    for c in range(n):
        p = next((r for r in range(c, n) if m[r][c] != 0), None)
        if p is None:
            raise np.linalg.LinAlgError("Singular matrix")
        m[c], m[p] = m[p], m[c]
        m[c] = [v / m[c][c] for v in m[c]]
        for r in range(n):
            if r != c and m[r][c] != 0:
                m[r] = [v - m[r][c] * w for v, w in zip(m[r], m[c])]
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            q = m[i][n + j]
            d = q.denominator
            out[i, j] = np.float64(float(q)) if d & (d - 1) == 0 else \
                V.SymFloat(z3.RealVal(f"{q.numerator}/{d}"))
    return SymArray.of(out, "f")


def r_det(a):
    b = as_sarr(a).view(np.ndarray)

    def det(m):
        if m.shape[0] == 1:
            return m[0, 0]
        r = np.float64(0)
        for j in range(m.shape[0]):
            minor = np.delete(np.delete(m, 0, 0), j, 1)
            r = r + (m[0, j] * det(minor)) * (1 if j % 2 == 0 else -1)
        return r
    return det(b)


# ---------------------------------------------------------------- selection / structure


def where3(c, x, y):
    c, x, y = as_sarr(c), as_sarr(x), as_sarr(y)
    kind = join(x.kind, y.kind) if "O" not in (x.kind, y.kind) else "O"
    C, X, Y = np.broadcast_arrays(c.view(np.ndarray), x.view(np.ndarray), y.view(np.ndarray))
    out = np.empty(C.shape, dtype=object)
    for i in np.ndindex(*C.shape):
        v = ite(s_truth(C[i]), X[i], Y[i])
        out[i] = coerce_kind(v, kind) if kind != "O" else v
    return wrap_out(out, kind)


def r_nonzero(a):
    a = as_sarr(a)
    m = conc_mask(elem1(s_truth, a, "b"))
    return tuple(as_sarr(x) for x in np.nonzero(m))


def r_where(c, *xy):
    if xy:
        return where3(c, *xy)
    return r_nonzero(c)


def r_count_nonzero(a, axis=None, keepdims=False):
    return r_sum(elem1(s_truth, as_sarr(a), "b"), axis, keepdims)


def r_unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = as_sarr(ar)
    if axis is not None and a.ndim > 1:
        return _unique_rows(a, axis, return_index, return_inverse, return_counts)
    xs = list(a.view(np.ndarray).reshape(-1))
    order = py_sort(list(range(len(xs))), key=lambda i: _num(xs[i])) if a.kind != "O" else \
        sorted(range(len(xs)), key=lambda i: xs[i])
    vals, first, inv, cnt = [], [], [None] * len(xs), []
    for i in order:
        same = False
        if vals:
            both = s_and(s_isnan(vals[-1]), s_isnan(xs[i])) if a.kind == "f" else False
            same = bool(s_or(vals[-1] == xs[i], both))
        if not same:
            vals.append(xs[i])
            first.append(i)
            cnt.append(0)
        first[-1] = min(first[-1], i)
        inv[i] = len(vals) - 1
        cnt[-1] += 1
    out = [SymArray.of(_objs(vals), a.kind)]
    if return_index:
        out.append(as_sarr(np.array(first, dtype=int)))
    if return_inverse:
        out.append(as_sarr(np.array(inv, dtype=int)))
    if return_counts:
        out.append(as_sarr(np.array(cnt, dtype=int)))
    return out[0] if len(out) == 1 else tuple(out)


def _unique_rows(a, axis, ri, rv, rc):
    m = np.moveaxis(a.view(np.ndarray), axis, 0)
    rows = [m[i].reshape(-1) for i in range(m.shape[0])]

    def less(i, j):
        for x, y in zip(rows[i], rows[j]):
            if bool(x < y):
                return True
            if bool(x > y):
                return False
        return False
    order = []
    for i in range(len(rows)):
        p = len(order)
        while p > 0 and less(i, order[p - 1]):
            p -= 1
        order.insert(p, i)
    groups = []
    for i in order:
        if groups and bool(all_of([x == y for x, y in zip(rows[groups[-1][0]], rows[i])])):
            groups[-1].append(i)
        else:
            groups.append([i])
    res = np.empty((len(groups), *m.shape[1:]), dtype=object)
    for g, idxs in enumerate(groups):
        res[g] = m[idxs[0]]
    out = [SymArray.of(np.moveaxis(res, 0, axis), a.kind)]
    if ri:
        out.append(as_sarr(np.array([min(g) for g in groups], dtype=int)))
    if rv:
        inv = np.zeros(len(rows), dtype=int)
        for g, idxs in enumerate(groups):
            inv[idxs] = g
        out.append(as_sarr(inv))
    if rc:
        out.append(as_sarr(np.array([len(g) for g in groups], dtype=int)))
    return out[0] if len(out) == 1 else tuple(out)


def _objs(xs):
    o = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        o[i] = x
    return o


def r_isin(element, test_elements, assume_unique=False, invert=False, **k):
    t = list(as_sarr(test_elements).view(np.ndarray).reshape(-1))

    def f(x):
        r = any_of([x == y for y in t]) if t else np.bool_(False)
        return s_not(r) if invert else r
    return elem1(f, as_sarr(element), "b")


def r_setop(op):
    def f(a, b, *x, **k):
        A = list(r_unique(a).view(np.ndarray))
        B = list(as_sarr(b).view(np.ndarray).reshape(-1))
        ka = join(as_sarr(a).kind, as_sarr(b).kind)
        if op == "diff":
            r = [x for x in A if not bool(any_of([x == y for y in B]))]
        elif op == "inter":
            r = [x for x in A if bool(any_of([x == y for y in B]))]
        else:
            return r_unique(SymArray.of(_objs(A + B), ka))
        return SymArray.of(_objs(r), ka)
    return f


def r_array_equal(a, b, equal_nan=False):
    a, b = as_sarr(a), as_sarr(b)
    if a.shape != b.shape:
        return np.bool_(False)
    return all_of([x == y for x, y in zip(a.view(np.ndarray).ravel(), b.view(np.ndarray).ravel())])


def s_isclose(a, b, rtol=1e-5, atol=1e-8):
    return abs(a - b) <= atol + rtol * abs(b)


def r_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return binop(lambda x, y: s_isclose(x, y, rtol, atol), "b", a, b)


def r_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = r_isclose(a, b, rtol, atol, equal_nan)
    return r_all(r)


def accumulate(a, fn, axis):
    m = np.moveaxis(a.view(np.ndarray).copy(), axis, -1)
    for idx in np.ndindex(*m.shape[:-1]):
        row = m[idx]
        for i in range(1, len(row)):
            row[i] = fn(_num(row[i - 1]), _num(row[i]))
        if len(row):
            row[0] = _num(row[0])
    return SymArray.of(np.moveaxis(m, -1, axis), a.kind if a.kind != "b" else "i")


def r_cumsum(a, axis=None, dtype=None, out=None):
    a = as_sarr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    return accumulate(a, lambda x, y: x + y, axis)


def r_cumprod(a, axis=None, dtype=None, out=None):
    a = as_sarr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    return accumulate(a, lambda x, y: x * y, axis)


def r_round(a, decimals=0, out=None):
    def f(x):
        if isinstance(x, SymBool):
            return x.as_int()
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymFloat):
            return coerce_kind(x.__round__(decimals), "f")
        return np.round(x, decimals)
    if isinstance(a, Sym):
        return f(a)
    a = as_sarr(a)
    r = elem1(f, a, a.kind)
    return r.item() if r.ndim == 0 else r


def r_clip(a, a_min=None, a_max=None, out=None, **k):
    r = as_sarr(a)
    if a_min is not None:
        r = ufunc(np.maximum, "__call__", (r, a_min), {})
    if a_max is not None:
        r = ufunc(np.minimum, "__call__", (r, a_max), {})
    if out is not None:
        out[...] = r
        return out
    return r


def r_ptp(a, axis=None, out=None, keepdims=False):
    return ufunc(np.subtract, "__call__", (r_max(a, axis, keepdims=keepdims),
                                           r_min(a, axis, keepdims=keepdims)), {})


def r_diff(a, n=1, axis=-1, **k):
    a = as_sarr(a)
    for _ in range(n):
        m = np.moveaxis(a, axis, 0)
        a = np.moveaxis(m[1:] - m[:-1], 0, axis)
    return a


def r_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    big = np.finfo(np.float64).max
    def f(v):
        v = ite(s_isnan(v), np.float64(nan), v)
        if isinstance(v, SymFloat) and v.plain:
            return v
        v = ite(s_and(s_isinf(v), v > 0), np.float64(posinf if posinf is not None else big), v)
        return ite(s_and(s_isinf(v), v < 0),
                   np.float64(neginf if neginf is not None else -big), v)
    return elem1(f, as_sarr(x), "f")


def r_bincount(x, weights=None, minlength=0):
    idx = conc_key(as_sarr(x))
    return as_sarr(np.bincount(np.asarray(idx, dtype=int), minlength=minlength)) \
        if weights is None else _bincw(idx, weights, minlength)


def _bincw(idx, w, minlength):
    n = max([int(i) + 1 for i in idx] + [minlength])
    out = [np.float64(0)] * n
    for i, v in zip(idx, as_sarr(w)):
        out[int(i)] = out[int(i)] + v
    return SymArray.of(_objs(out), "f")


def r_searchsorted(a, v, side="left", sorter=None):
    xs = list(as_sarr(a).view(np.ndarray))

    def f(x):
        if side == "left":
            return lin_sum([tobool_(y < x) for y in xs]) if xs else np.int64(0)
        return lin_sum([tobool_(y <= x) for y in xs]) if xs else np.int64(0)
    if isinstance(v, Sym) or np.ndim(v) == 0:
        return f(v)
    return elem1(f, as_sarr(v), "i")


def tobool_(x):
    return x


def r_take_along_axis(arr, indices, axis):
    a = as_sarr(arr)
    idx = conc_key(as_sarr(indices))
    return SymArray.of(np.take_along_axis(a.view(np.ndarray), np.asarray(idx), axis), a.kind)


def r_delete(arr, obj, axis=None):
    a = as_sarr(arr)
    o = conc_key(obj)
    return SymArray.of(np.delete(a.view(np.ndarray), o, axis), a.kind)


def r_insert(arr, obj, values, axis=None):
    a = as_sarr(arr)
    v = as_sarr(values)
    return SymArray.of(np.insert(a.view(np.ndarray), conc_key(obj), v.view(np.ndarray), axis),
                       a.kind)


def r_fill_diagonal(a, val, wrap=False):
    for i in range(min(a.shape)):
        a[i, i] = val


def r_average(a, axis=None, weights=None, **k):
    if weights is None:
        return r_mean(a, axis)
    w = as_sarr(weights)
    a = as_sarr(a)
    if axis is not None and w.ndim != a.ndim:
        sh = [1] * a.ndim
        sh[axis] = -1
        w = w.reshape(sh)
    num = r_sum(ufunc(np.multiply, "__call__", (a, w), {}), axis)
    den = r_sum(SymArray.of(np.broadcast_to(w.view(np.ndarray), a.shape).copy(), w.kind), axis)
    return ufunc(np.true_divide, "__call__", (num, den), {}) \
        if isinstance(num, np.ndarray) else s_div(num, den)


def r_apply_along_axis(func1d, axis, arr, *args, **kwargs):
    a = as_sarr(arr)
    m = np.moveaxis(a, axis, -1)
    res = [func1d(m[i], *args, **kwargs) for i in np.ndindex(*m.shape[:-1])]
    r = as_sarr(res)
    return r.reshape(m.shape[:-1] + r.shape[1:])


def r_select(condlist, choicelist, default=0):
    r = default
    for c, x in reversed(list(zip(condlist, choicelist))):
        r = where3(c, x, r)
    return r


def r_interp(x, xp, fp, **k):
    raise Unsupported("interp")


def r_outer(a, b, out=None):
    return ufunc(np.multiply, "outer", (as_sarr(a).ravel(), as_sarr(b).ravel()), {})


def r_copyto(dst, src, casting=None, where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = where3(where, src, dst)


def r_put(a, ind, v, **k):
    fl = a.reshape(-1)
    fl[conc_key(ind)] = v


def r_place(arr, mask, vals):
    arr[mask] = vals


def r_ravel_multi_index(multi_index, dims, mode="raise", order="C"):
    dims = [int(d) for d in dims]
    mult, m = [], 1
    for d in (reversed(dims) if order == "C" else dims):
        mult.append(m)
        m *= d
    if order == "C":
        mult = mult[::-1]
    arrs = [as_sarr(x) for x in multi_index]
    for a, d in zip(arrs, dims):
        for e in a.view(np.ndarray).ravel():
            if bool(s_or(e < 0, e >= d)):
                raise ValueError("invalid entry in coordinates array")
    r = None
    for a, k in zip(arrs, mult):
        t = a * k
        r = t if r is None else r + t
    return r


STRUCT = {
    "concatenate", "hstack", "vstack", "stack", "column_stack", "dstack", "append", "reshape",
    "ravel", "transpose", "tile", "repeat", "diag", "diagonal", "expand_dims", "squeeze",
    "broadcast_to", "swapaxes", "moveaxis", "rollaxis", "roll", "flip", "fliplr", "flipud",
    "rot90", "atleast_1d", "atleast_2d", "atleast_3d", "triu", "tril", "copy", "split",
    "array_split", "hsplit", "vsplit", "row_stack", "resize", "take", "compress", "choose",
    "broadcast_arrays", "ix_", "meshgrid", "pad", "asfortranarray", "ascontiguousarray",
    "diagflat", "block", "unravel_index", "trim_zeros", "partition",
}


def _plain(o):
    if isinstance(o, SymArray):
        return o.view(np.ndarray)
    if isinstance(o, SymInt):
        return o.concretise()
    if isinstance(o, list):
        return [_plain(x) for x in o]
    if isinstance(o, tuple):
        return tuple(_plain(x) for x in o)
    return o


def struct_call(func, args, kwargs):
    kinds = []

    def walk(o):
        if isinstance(o, np.ndarray):
            kinds.append(o.kind if isinstance(o, SymArray) else as_sarr(o).kind)
        elif isinstance(o, (list, tuple)):
            for x in o:
                walk(x)
        elif isinstance(o, Sym):
            kinds.append(kind_of_val(o))
        elif hasattr(o, "to_numpy"):
            kinds.append(as_sarr(o).kind)
    walk(args[0])
    if func.__name__ in ("append", "choose"):
        walk(args[1:2])
        if len(args) > 1 and np.isscalar(args[1]):
            kinds.append(kind_of_val(args[1]))
    kind = join(*kinds) if kinds else None
    a = []
    for i, x in enumerate(args):
        if i == 0 or func.__name__ in ("append", "meshgrid", "broadcast_arrays", "ix_"):
            a.append(_obj(x))
        else:
            a.append(_idx(x))
    r = func(*a, **{k: _idx(v) for k, v in kwargs.items()})
    return _rewrap(r, kind)


def _obj(o):
    if isinstance(o, (np.ndarray,)):
        return as_sarr(o).view(np.ndarray)
    if isinstance(o, (list, tuple)) and any(isinstance(x, (np.ndarray, list, tuple, Sym)) or
                                            hasattr(x, "to_numpy") for x in o):
        if all(isinstance(x, np.ndarray) or hasattr(x, "to_numpy") for x in o):
            return [as_sarr(x).view(np.ndarray) for x in o]
        if any(isinstance(x, np.ndarray) for x in o):
            return [as_sarr(x).view(np.ndarray) for x in o]
        return as_sarr(o).view(np.ndarray)
    if isinstance(o, (list, tuple)):
        return as_sarr(o).view(np.ndarray)
    if isinstance(o, Sym):
        return as_sarr(o).view(np.ndarray)
    if hasattr(o, "to_numpy"):
        return as_sarr(o).view(np.ndarray)
    return o


def _idx(o):
    if isinstance(o, (Sym, np.ndarray, list)) and has_sym(o):
        return conc_key(o)
    if isinstance(o, SymArray):
        return o.native()
    return o


def _rewrap(r, kind):
    if isinstance(r, np.ndarray):
        if r.ndim == 0 and r.dtype == object:
            return r.item()
        if r.dtype == object:
            if kind and kind != "O":
                return elem1(lambda x: coerce_kind(x, kind), r, kind)
            return SymArray.of(_unw(r), kind)
        return as_sarr(r)
    if isinstance(r, list):
        return [_rewrap(x, kind) for x in r]
    if isinstance(r, tuple):
        return tuple(_rewrap(x, kind) for x in r)
    return r


def _unw(r):
    from .arrays import _unwrap_obj
    return _unwrap_obj(r)


def mk_array(o, dtype=None, copy=True, **k):
    ndmin = k.get("ndmin", 0)
    kind = kind_of_dtype(dtype) if dtype is not None else None
    if dtype is not None and kind is None:
        n = native_of(o)
        return np.array(n, dtype=dtype)
    if isinstance(o, np.ndarray) and o.dtype.kind in "USMm":
        return np.array(o, dtype=dtype)
    if isinstance(o, (list, tuple)) and not has_sym(o) and kind is None:
        flat = np.array(native_of(o))
        if flat.dtype.kind in "USO":
            return flat
    r = as_sarr(o)
    if kind is not None and kind != r.kind and kind != "O":
        r = elem1(lambda x: coerce_kind(x, kind), r, kind)
    elif copy:
        r = r.copy()
    if kind == "O":
        r = np.array(r.view(np.ndarray), dtype=object)
    while r.ndim < ndmin:
        r = r.reshape((1, *r.shape))
    return r


def mk_asarray(o, dtype=None, **k):
    if isinstance(o, SymArray) and dtype is None:
        return o
    if isinstance(o, SymArray) and kind_of_dtype(dtype) == o.kind:
        return o
    return mk_array(o, dtype, copy=False)


def mk_full(shape, val, kind):
    if isinstance(shape, (tuple, list)):
        shape = tuple(int(x.__index__()) for x in shape)
    elif isinstance(shape, np.ndarray):
        shape = tuple(int(x) for x in conc_key(shape))
    else:
        shape = (int(shape.__index__()),)
    o = np.empty(shape, dtype=object)
    val = coerce_kind(val, kind) if kind != "O" else val
    of = o.reshape(-1)
    for i in range(of.size):
        of[i] = val
    return SymArray.of(of.reshape(shape), kind)


def _ck(dtype, default="f"):
    if dtype is None:
        return default
    k = kind_of_dtype(dtype)
    return k


def c_zeros(shape, dtype=None, order="C", **k):
    if dtype is not None and kind_of_dtype(dtype) is None:
        return np.zeros(native_of(shape), dtype=dtype)
    return mk_full(shape, 0, _ck(dtype))


def c_ones(shape, dtype=None, order="C", **k):
    return mk_full(shape, 1, _ck(dtype))


def c_empty(shape, dtype=None, order="C", **k):
    if dtype is not None and kind_of_dtype(dtype) in (None, "O"):
        return np.empty(native_of(shape), dtype=dtype)
    kd = _ck(dtype)
    # uninitialised memory: arbitrary contents
    a = mk_full(shape, 0, kd)
    c = cur()
    b = a.view(np.ndarray)
    for i in np.ndindex(*b.shape):
        n = c.fresh_id("uninit")
        b[i] = {"f": lambda: SymFloat(z3.Real(n)), "i": lambda: SymInt(z3.Int(n)),
                "b": lambda: SymBool(z3.Bool(n))}[kd]()
    return a


def c_full(shape, fill_value, dtype=None, order="C", **k):
    if isinstance(fill_value, str) or fill_value is None:
        return np.full(native_of(shape), fill_value, dtype)
    if isinstance(fill_value, np.ndarray) and fill_value.ndim:
        a = c_zeros(shape, dtype or "f8")
        a[...] = fill_value
        return a
    return mk_full(shape, fill_value, _ck(dtype, kind_of_val(norm_scalar(fill_value))))


def _like(val):
    def f(a, *args, dtype=None, shape=None, **k):
        if args and dtype is None:
            if val == "full":
                fv, *rest = args
                dtype = rest[0] if rest else None
            else:
                dtype = args[0]
        sa = as_sarr(a)
        kind = _ck(dtype, sa.kind)
        v = k.get("fill_value", args[0] if args else None) if val == "full" else val
        return mk_full(sa.shape if shape is None else shape, v, kind)
    return f


def c_arange(*a, dtype=None, **k):
    a = [x.__index__() if isinstance(x, SymInt) else x for x in a]
    if has_sym(a):
        raise Unsupported("arange over reals")
    return as_sarr(np.arange(*a, dtype=dtype, **k))


def c_linspace(start, stop, num=50, endpoint=True, **k):
    num = int(num.__index__())
    if not has_sym((start, stop)):
        return as_sarr(np.linspace(native_of(start), native_of(stop), num, endpoint=endpoint, **k))
    d = num - 1 if endpoint else num
    return as_sarr([start + (stop - start) * np.float64(i / d) if i else start + np.float64(0)
                    for i in range(num)])


def native_of(o):
    """Concrete counterpart (native dtypes) of a value; Unsupported when symbolic."""
    if isinstance(o, SymArray):
        n = o.native()
        if n is None:
            raise Unsupported("symbolic array reaches foreign code")
        return n
    if isinstance(o, SymInt):
        return o.concretise()
    if isinstance(o, SymBool):
        return bool(o)
    if isinstance(o, SymFloat):
        raise Unsupported("symbolic real reaches foreign code")
    if type(o) is list:
        return [native_of(x) for x in o]
    if type(o) is tuple:
        return tuple(native_of(x) for x in o)
    if type(o) is dict:
        return {k: native_of(v) for k, v in o.items()}
    return o


def wrap_native(o):
    if isinstance(o, np.ndarray) and not isinstance(o, SymArray) and o.dtype.kind in "biuf":
        return as_sarr(o) if o.ndim else o
    if isinstance(o, np.ndarray) and o.dtype == object and not isinstance(o, SymArray) and \
            has_sym(o):
        return SymArray.of(_unw(o))
    if type(o) is tuple:
        return tuple(wrap_native(x) for x in o)
    if type(o) is list and any(isinstance(x, np.ndarray) for x in o):
        return [wrap_native(x) for x in o]
    return o


def fallback(func, args, kw):
    """Foreign function: run it natively when its arguments are concrete."""
    return wrap_native(func(*native_of(tuple(args)), **native_of(dict(kw))))


FUNCS = {
    np.sum: lambda a, axis=None, dtype=None, out=None, keepdims=False, **k:
        r_sum(a, axis, _kd(keepdims)),
    np.prod: r_prod, np.mean: r_mean, np.std: r_std, np.var: r_var,
    np.nanmean: r_nanmean, np.nanstd: r_nanstd, np.nanvar: r_nanvar, np.nansum: r_nansum,
    np.max: r_max, np.min: r_min, np.amax: r_max, np.amin: r_min,
    np.nanmax: r_nanmax, np.nanmin: r_nanmin,
    np.all: r_all, np.any: r_any, np.argmax: r_argmax, np.argmin: r_argmin,
    np.nanargmax: r_nanargmax, np.nanargmin: r_nanargmin,
    np.sort: r_sort, np.argsort: r_argsort, np.median: r_median, np.nanmedian: r_nanmedian,
    np.quantile: r_quantile, np.percentile: r_percentile,
    np.nanquantile: r_nanquantile, np.nanpercentile: r_nanpercentile,
    np.dot: matmul, np.matmul: matmul, np.inner: lambda a, b: matmul(a, as_sarr(b).T),
    np.vdot: lambda a, b: matmul(as_sarr(a).ravel(), as_sarr(b).ravel()),
    np.outer: r_outer, np.linalg.norm: r_norm, np.linalg.inv: r_inv, np.linalg.solve: r_solve, np.linalg.det: r_det,
    np.cov: r_cov, np.corrcoef: r_corrcoef,
    np.where: r_where, np.nonzero: r_nonzero,
    np.flatnonzero: lambda a: r_nonzero(as_sarr(a).ravel())[0],
    np.argwhere: lambda a: as_sarr(np.transpose([x.native() for x in r_nonzero(a)])),
    np.count_nonzero: r_count_nonzero, np.unique: r_unique, np.isin: r_isin,
    np.in1d: r_isin, np.setdiff1d: r_setop("diff"), np.intersect1d: r_setop("inter"),
    np.union1d: r_setop("union"), np.array_equal: r_array_equal, np.isclose: r_isclose,
    np.allclose: r_allclose, np.cumsum: r_cumsum, np.cumprod: r_cumprod,
    np.round: r_round, np.around: r_round, np.clip: r_clip, np.ptp: r_ptp, np.diff: r_diff,
    np.nan_to_num: r_nan_to_num, np.bincount: r_bincount, np.searchsorted: r_searchsorted,
    np.take_along_axis: r_take_along_axis, np.delete: r_delete, np.insert: r_insert,
    np.fill_diagonal: r_fill_diagonal, np.average: r_average,
    np.apply_along_axis: r_apply_along_axis, np.select: r_select, np.copyto: r_copyto,
    np.put: r_put, np.place: r_place, np.ravel_multi_index: r_ravel_multi_index,
    np.trace: lambda a, *k, **kw: lin_sum(list(np.diag(as_sarr(a).view(np.ndarray)))),
    np.shape: lambda a: a.shape, np.ndim: lambda a: a.ndim, np.size:
        lambda a, axis=None: a.size if axis is None else a.shape[axis],
    np.full_like: _like("full"), np.zeros_like: _like(0), np.ones_like: _like(1),
}
def c_empty_like(a, dtype=None, order="K", subok=True, shape=None, **k):
    sa = as_sarr(a)
    return c_empty(sa.shape if shape is None else shape, dtype or
                   {"b": bool, "i": np.int64, "f": float, "O": object}[sa.kind])


FUNCS[np.empty_like] = c_empty_like
CREATE = {
    np.zeros: c_zeros, np.ones: c_ones, np.empty: c_empty, np.full: c_full,
    np.array: mk_array, np.asarray: mk_asarray, np.asanyarray: mk_asarray,
    np.ascontiguousarray: mk_asarray,
    np.arange: c_arange, np.linspace: c_linspace,
    np.zeros_like: _like(0), np.ones_like: _like(1), np.empty_like: c_empty_like,
    np.full_like: _like("full"),
}


def function(func, args, kwargs):
    h = FUNCS.get(func)
    if h is not None:
        return h(*args, **kwargs)
    n = getattr(func, "__name__", "?")
    if n in STRUCT:
        return struct_call(func, args, kwargs)
    return fallback(func, args, kwargs)


METHODS = {
    "sum": lambda s, axis=None, dtype=None, out=None, keepdims=False, **k:
        r_sum(s, axis, keepdims),
    "prod": r_prod, "mean": r_mean, "std": r_std, "var": r_var, "min": r_min, "max": r_max,
    "argmin": r_argmin, "argmax": r_argmax, "any": r_any, "all": r_all, "sort": meth_sort,
    "argsort": r_argsort, "cumsum": r_cumsum, "round": r_round, "dot": matmul,
    "nonzero": r_nonzero,
    "clip": lambda s, min=None, max=None, **k: r_clip(s, min, max),
    "trace": lambda s, *a, **k: lin_sum(list(np.diag(s.view(np.ndarray)))),
    "ptp": r_ptp,
}
