"""Models of pandas / scipy operations on symbolic data."""
from __future__ import annotations

import numpy as np
import pandas as pd
import scipy.linalg
import scipy.spatial.distance as ssd
import scipy.stats as st

from . import npfuncs as NP
from . import values as V
from .arrays import kind_of_dtype, SymArray, as_sarr, conc_key1, elem1, has_sym, coerce_kind
from .core import Unsupported, cur
from .hook import LIBMODELS
from .values import Sym, SymBool, SymFloat, SymInt


# ------------------------------------------------------------------ pandas
def to_native(o):
    """SymArray -> native array when concrete, else plain object array."""
    if isinstance(o, SymArray):
        n = o.native()
        return n if n is not None else np.array(o.view(np.ndarray), dtype=object)
    if type(o) is list:
        return [to_native(x) for x in o]
    if type(o) is tuple:
        return tuple(to_native(x) for x in o)
    if type(o) is dict:
        return {k: to_native(v) for k, v in o.items()}
    return o


def pkey(k):
    if isinstance(k, tuple):
        return tuple(pkey(x) for x in k)
    if isinstance(k, (Sym, slice)):
        return conc_key1(k)
    if isinstance(k, SymArray) or (isinstance(k, (np.ndarray, list)) and has_sym(k)):
        k = conc_key1(k)
        if isinstance(k, SymArray):
            k = k.native()
        return k
    if isinstance(k, pd.Series) and has_sym(k):
        m = conc_key1(k)
        return pd.Series(m, index=k.index)
    return k


def pandas_getitem(o, k):
    return NP.wrap_native(o[pkey(k)])


def pandas_setitem(o, k, v):
    o[pkey(k)] = to_native(v)


def pandas_method(self, f, a, k):
    name = getattr(f, "__name__", "")
    if name in ("to_numpy", "astype") and isinstance(self, (pd.DataFrame, pd.Series)):
        m = np.asarray(self, dtype=object)
        dt = k.get("dtype", a[0] if a else None)
        if has_sym(list(m.ravel())) and dt is not None and kind_of_dtype(dt) == "f":
            arr = as_sarr(m, "f")
            if name == "to_numpy":
                return arr
            return type(self)(np.asarray(arr, dtype=object), index=self.index)
    r = f(*[pkey(to_native(x)) for x in a], **{n: pkey(to_native(x)) for n, x in k.items()})
    return NP.wrap_native(r)


def pandas_func(f, a, k):
    r = f(*[to_native(x) for x in a], **{n: to_native(x) for n, x in k.items()})
    return NP.wrap_native(r)


# ------------------------------------------------------------------ scipy
def model(*fs):
    def d(g):
        for f in fs:
            LIBMODELS[f] = g
        return g
    return d


@model(st.zscore)
def zscore(a, axis=0, ddof=0, nan_policy="propagate"):
    a = as_sarr(a)
    if a.ndim == 1 and axis == 0:
        m = NP.r_mean(a)
        s = NP.r_std(a, ddof=ddof)
    else:
        m = NP.r_mean(a, axis=axis, keepdims=True)
        s = NP.r_std(a, axis=axis, ddof=ddof, keepdims=True)
    return NP.ufunc(np.true_divide, "__call__", (a - m, s), {})


@model(st.iqr)
def iqr(x, axis=None, rng=(25, 75), scale=1.0, nan_policy="propagate", interpolation="linear",
        keepdims=False):
    f = NP.r_nanpercentile if nan_policy == "omit" else NP.r_percentile
    lo = f(x, rng[0], axis=axis, method=interpolation, keepdims=keepdims)
    hi = f(x, rng[1], axis=axis, method=interpolation, keepdims=keepdims)
    return (hi - lo) if scale == 1.0 else (hi - lo) / scale


@model(ssd.cdist)
def cdist(XA, XB, metric="euclidean", **k):
    A, B = as_sarr(XA), as_sarr(XB)
    out = np.empty((A.shape[0], B.shape[0]), dtype=object)
    a, b = A.view(np.ndarray), B.view(np.ndarray)
    for i in range(A.shape[0]):
        for j in range(B.shape[0]):
            out[i, j] = dist(a[i], b[j], metric)
    return SymArray.of(out, "f")


def dist(u, v, metric):
    if metric == "euclidean":
        return NP.s_sqrt(NP.lin_sum([(x - y) * (x - y) for x, y in zip(u, v)]))
    if metric == "sqeuclidean":
        return NP.lin_sum([(x - y) * (x - y) for x, y in zip(u, v)])
    if metric in ("cityblock", "manhattan"):
        return NP.lin_sum([abs(x - y) for x, y in zip(u, v)])
    raise Unsupported(f"metric {metric}")


@model(ssd.pdist)
def pdist(X, metric="euclidean", **k):
    X = as_sarr(X)
    b = X.view(np.ndarray)
    n = X.shape[0]
    out = [dist(b[i], b[j], metric) for i in range(n) for j in range(i + 1, n)]
    o = np.empty(len(out), dtype=object)
    for i, x in enumerate(out):
        o[i] = x
    return SymArray.of(o, "f")


@model(ssd.squareform)
def squareform(X, force="no", checks=True):
    X = as_sarr(X)
    b = X.view(np.ndarray)
    if b.ndim == 1:
        n = int(round((1 + (1 + 8 * len(b)) ** 0.5) / 2))
        out = np.empty((n, n), dtype=object)
        k = 0
        for i in range(n):
            out[i, i] = np.float64(0)
            for j in range(i + 1, n):
                out[i, j] = out[j, i] = b[k]
                k += 1
        return SymArray.of(out, "f")
    n = b.shape[0]
    return as_sarr([b[i, j] for i in range(n) for j in range(i + 1, n)], "f")


def loguru_off():
    from loguru import logger
    for n in ("info", "debug", "warning", "error", "success", "trace", "exception", "critical"):
        LIBMODELS[getattr(type(logger), n)] = lambda *a, **k: None
    return logger


@model(np.random.default_rng)
def default_rng(seed=None):
    if seed is None or has_sym(seed):
        raise Unsupported("unseeded random generator (stub it)")
    return np.random.default_rng(seed)


_ = (SymBool, SymFloat, SymInt, V, cur, elem1, coerce_kind, scipy)
