"""Symbolic arrays: numpy object arrays with a logical kind ('b', 'i', 'f', 'O')."""
from __future__ import annotations

import array

import numpy as np
import z3

from . import values as V
from .core import Unsupported, cur
from .values import Sym, SymBool, SymFloat, SymInt, ite, tobool

NPK = {"b": np.dtype(bool), "i": np.dtype(np.int64), "f": np.dtype(np.float64)}


def kind_of_dtype(t):
    if t is None:
        return None
    if t is object:
        return "O"
    try:
        d = np.dtype(t)
    except TypeError:
        return "O"
    return {"b": "b", "i": "i", "u": "i", "f": "f", "O": "O"}.get(d.kind, None)


def kind_of_val(x):
    if isinstance(x, (SymBool, bool, np.bool_)):
        return "b"
    if isinstance(x, (SymInt, int, np.integer)):
        return "i"
    if isinstance(x, (SymFloat, float, np.floating)):
        return "f"
    return "O"


ORDER = {"b": 0, "i": 1, "f": 2, "O": 3}


def join(*ks):
    return max(ks, key=lambda k: ORDER[k]) if ks else "f"


def coerce_kind(x, k):
    """Convert a scalar to kind k the way assignment into such an array does."""
    if k == "f":
        if isinstance(x, SymFloat) or type(x) is np.float64:
            return x
        if isinstance(x, (SymInt, SymBool)):
            s = V.to_sf(x)
            return V.mkfloat(s.v)
        if x is None:
            return np.float64("nan")
        if isinstance(x, np.ndarray) and x.size == 1:
            return coerce_kind(x.ravel()[0], k)
        return np.float64(x)
    if k == "i":
        if isinstance(x, SymInt) or type(x) is np.int64:
            return x
        if isinstance(x, SymBool):
            return x.as_int()
        if isinstance(x, SymFloat):
            return x.trunc()
        if isinstance(x, np.ndarray) and x.size == 1:
            return coerce_kind(x.ravel()[0], k)
        return np.int64(x)
    if k == "b":
        if isinstance(x, SymBool) or type(x) is np.bool_:
            return x
        if isinstance(x, (SymInt, SymFloat)):
            return x != 0
        if isinstance(x, np.ndarray) and x.size == 1:
            return coerce_kind(x.ravel()[0], k)
        return np.bool_(bool(x))
    return x


def infer_kind(flat):
    k = None
    for x in flat:
        kx = kind_of_val(x)
        if kx == "O":
            return "O"
        k = kx if k is None else join(k, kx)
    return k or "f"


def has_sym(o, depth=0):
    if isinstance(o, Sym):
        return True
    if isinstance(o, np.ndarray):
        if o.dtype != object:
            return False
        return any(isinstance(x, Sym) or (not isinstance(x, (int, float, str, bool, np.generic))
                                          and has_sym(x, depth + 1))
                   for x in o.ravel().view(np.ndarray))
    if depth > 4:
        return False
    if isinstance(o, (list, tuple, set, frozenset)):
        return any(has_sym(x, depth + 1) for x in o)
    if isinstance(o, dict):
        return any(has_sym(x, depth + 1) for x in o.values())
    if isinstance(o, slice):
        return has_sym((o.start, o.stop, o.step))
    t = type(o)
    if t.__module__.startswith("pandas"):
        try:
            if t.__name__ == "Series" or t.__name__ == "Index":
                return o.dtype == object and any(isinstance(x, Sym) for x in o.array)
            if t.__name__ == "DataFrame":
                return any(isinstance(x, Sym) for c in range(o.shape[1])
                           if o.dtypes.iloc[c] == object for x in o.iloc[:, c].array)
        except Exception:
            return False
    return False


class SymArray(np.ndarray):
    """ndarray subclass of dtype object; elements are numpy scalars or Sym."""

    def __array_finalize__(self, obj):
        self.kind = getattr(obj, "kind", "O")

    # -- construction -----------------------------------------------------------
    @staticmethod
    def of(objarr, kind=None):
        a = np.asarray(objarr, dtype=object)
        r = a.view(SymArray)
        r.kind = kind if kind is not None else infer_kind(a.ravel())
        return r

    @property
    def is_conc(self):
        return not any(isinstance(x, Sym) for x in self.ravel().view(np.ndarray))

    def native(self):
        """Concrete contents as a native-typed ndarray (None when symbolic)."""
        if not self.is_conc:
            return None
        b = self.view(np.ndarray)
        if self.kind in NPK:
            try:
                return b.astype(NPK[self.kind])
            except (TypeError, ValueError):
                return np.array(b, dtype=object)
        return np.array(b, dtype=object)

    def base_view(self):
        return self.view(np.ndarray)

    # -- pretend dtype -----------------------------------------------------------
    # (the true dtype must stay 'object' for numpy's own C code)

    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        k = kind_of_dtype(dtype)
        if k is None:
            n = self.native()
            if n is None:
                raise Unsupported(f"astype({dtype}) of symbolic data")
            return n.astype(dtype)
        if k == "O":
            return np.array(self.view(np.ndarray), dtype=object)
        if k == "f":
            t = np.dtype(dtype)
            if t.itemsize < 8:
                return elem1(lambda x: V.narrow(coerce_kind(x, k), t), self, k)
        return elem1(lambda x: coerce_kind(x, k), self, k)

    # -- indexing ----------------------------------------------------------------
    def __getitem__(self, key):
        key = conc_key(key, self.shape)
        r = np.ndarray.__getitem__(self, key)
        return r

    def __setitem__(self, key, value):
        k = self.kind
        sm = sym_mask(key)
        if sm is not None:
            mask = sm
            if mask.shape == self.shape[:mask.ndim]:
                self._masked_assign(mask, value)
                return
        key = conc_key(key, self.shape)
        if k != "O":
            value = coerce_value(value, k)
        np.ndarray.__setitem__(self, key, value)

    def _masked_assign(self, mask, value):
        base = self.view(np.ndarray)
        if isinstance(value, np.ndarray) and value.ndim > 0 and value.shape != () and \
                value.size != 1:
            # value array aligned with the selected positions: need concrete mask
            m = conc_mask(mask)
            np.ndarray.__setitem__(self, m, coerce_value(value, self.kind))
            return
        if isinstance(value, np.ndarray):
            value = value.ravel()[0]
        if isinstance(value, (list, tuple)):
            m = conc_mask(mask)
            np.ndarray.__setitem__(self, m, coerce_value(value, self.kind))
            return
        if self.kind != "O":
            value = coerce_kind(value, self.kind)
        for idx in np.ndindex(*mask.shape):
            mv = mask[idx]
            if isinstance(mv, SymBool):
                d = cur().decided(mv.e)
                if d is not None:
                    mv = d
            if isinstance(mv, SymBool):
                if mask.ndim == base.ndim:
                    base[idx] = ite(mv, value, base[idx])
                else:
                    sub = base[idx]
                    for j in np.ndindex(*sub.shape):
                        sub[j] = ite(mv, value, sub[j])
            elif mv:
                if mask.ndim == base.ndim:
                    base[idx] = value
                else:
                    sub = base[idx]
                    for j in np.ndindex(*sub.shape):
                        sub[j] = value

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[i]

    def __bool__(self):
        if self.size == 1:
            return bool(self.ravel().view(np.ndarray)[0])
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is "
                         "ambiguous. Use a.any() or a.all()")

    def __float__(self):
        if self.size == 1:
            return float(self.ravel().view(np.ndarray)[0])
        raise TypeError("only length-1 arrays can be converted to Python scalars")

    def __int__(self):
        if self.size == 1:
            return int(self.ravel().view(np.ndarray)[0])
        raise TypeError("only length-1 arrays can be converted to Python scalars")

    def __index__(self):
        if self.size == 1:
            return self.ravel().view(np.ndarray)[0].__index__()
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __contains__(self, x):
        for e in self.ravel().view(np.ndarray):
            if bool(e == x):
                return True
        return False

    def item(self, *args):
        if args:
            return self.view(np.ndarray).item(*args)
        if self.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return self.ravel().view(np.ndarray)[0]

    def tolist(self):
        def conv(x):
            return x.item() if isinstance(x, np.generic) else x

        def rec(a):
            if a.ndim == 0:
                return conv(a.item())
            if a.ndim == 1:
                return [conv(x) for x in a]
            return [rec(y) for y in a]
        return rec(self.view(np.ndarray))

    def tobytes(self, *a):
        n = self.native()
        if n is None:
            raise Unsupported("tobytes of symbolic data")
        return n.tobytes(*a)

    def __deepcopy__(self, memo):
        r = self.copy()
        return r

    def __copy__(self):
        return self.copy()

    def __reduce__(self):
        n = self.native()
        if n is None:
            raise Unsupported("pickling symbolic data")
        return n.__reduce__()

    def fill(self, v):
        self[...] = v

    # -- protocol ---------------------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npfuncs
        return npfuncs.ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import npfuncs
        return npfuncs.function(func, args, kwargs)


def _method(name):
    def f(self, *a, **k):
        from . import npfuncs
        return npfuncs.METHODS[name](self, *a, **k)
    f.__name__ = name
    return f


for _m in ("sum", "prod", "mean", "std", "var", "min", "max", "argmin", "argmax", "any", "all",
           "sort", "argsort", "cumsum", "round", "dot", "nonzero", "clip", "trace", "ptp"):
    setattr(SymArray, _m, _method(_m))


def _op(ufn, rev=False, inplace=False):
    def f(self, o):
        if type(o).__module__.startswith("pandas") and not inplace:
            return NotImplemented
        if not (o is None or isinstance(o, (Sym, np.ndarray, list, tuple)) or np.isscalar(o)):
            return NotImplemented
        if o is None or isinstance(o, (str, bytes)):
            if ufn is np.equal:
                return SymArray.of(elem1(lambda x: np.bool_(x == o), self), "b")
            if ufn is np.not_equal:
                return SymArray.of(elem1(lambda x: np.bool_(x != o), self), "b")
        from . import npfuncs
        r = npfuncs.ufunc(ufn, "__call__", (o, self) if rev else (self, o), {})
        if inplace:
            rk = r.kind if isinstance(r, SymArray) else kind_of_val(r)
            if self.kind in ORDER and rk in ORDER and ORDER[rk] > ORDER[self.kind]:
                raise TypeError(f"Cannot cast ufunc '{ufn.__name__}' output from kind {rk} to "
                                f"kind {self.kind} with casting rule 'same_kind'")
            self[...] = r
            return self
        return r
    return f


for _n, _u in (("add", np.add), ("sub", np.subtract), ("mul", np.multiply),
               ("truediv", np.true_divide), ("floordiv", np.floor_divide),
               ("mod", np.remainder), ("pow", np.power), ("matmul", np.matmul),
               ("and", np.bitwise_and), ("or", np.bitwise_or), ("xor", np.bitwise_xor)):
    setattr(SymArray, f"__{_n}__", _op(_u))
    setattr(SymArray, f"__r{_n}__", _op(_u, rev=True))
    setattr(SymArray, f"__i{_n}__", _op(_u, inplace=True))
for _n, _u in (("lt", np.less), ("le", np.less_equal), ("gt", np.greater),
               ("ge", np.greater_equal), ("eq", np.equal), ("ne", np.not_equal)):
    setattr(SymArray, f"__{_n}__", _op(_u))


def elem1(fn, a, kind=None):
    b = a.view(np.ndarray) if isinstance(a, np.ndarray) else np.asarray(a, dtype=object)
    out = np.empty(b.shape, dtype=object)
    of, bf = out.reshape(-1), b.reshape(-1)
    for i in range(bf.size):
        of[i] = fn(bf[i])
    out = of.reshape(b.shape)
    return SymArray.of(out, kind)


def as_sarr(a, kind=None):
    """Anything array-like -> SymArray."""
    if isinstance(a, SymArray):
        return a
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            return SymArray.of(_unwrap_obj(a), kind)
        k = {"b": "b", "i": "i", "u": "i", "f": "f"}.get(a.dtype.kind)
        if k is None:
            return SymArray.of(a.astype(object), "O")
        o = np.empty(a.shape, dtype=object)
        of = o.reshape(-1)
        ty = {"b": np.bool_, "i": np.int64, "f": np.float64}[k]
        for i, x in enumerate(a.reshape(-1)):
            of[i] = ty(x)
        return SymArray.of(of.reshape(a.shape), k)
    if isinstance(a, Sym) or np.isscalar(a) or a is None:
        o = np.empty((), dtype=object)
        o[()] = norm_scalar(a)
        return SymArray.of(o, kind or kind_of_val(a))
    if hasattr(a, "to_numpy"):
        return as_sarr(a.to_numpy(), kind)
    if isinstance(a, (list, tuple, range)) or hasattr(a, "__iter__"):
        return from_nested(list(a), kind)
    raise Unsupported(f"array from {type(a).__name__}")


def _unwrap_obj(a):
    o = np.empty(a.shape, dtype=object)
    of, af = o.reshape(-1), a.reshape(-1)
    for i in range(af.size):
        of[i] = norm_scalar(af[i])
    return of.reshape(a.shape)


def norm_scalar(x):
    if isinstance(x, bool):
        return np.bool_(x)
    if type(x) is int:
        return np.int64(x) if abs(x) < 2**62 else x
    if type(x) is float:
        return np.float64(x)
    if isinstance(x, np.integer) and type(x) is not np.int64:
        return np.int64(x)
    if isinstance(x, np.floating) and type(x) is not np.float64:
        return np.float64(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return norm_scalar(x.item())
    return x


def from_nested(lst, kind=None):
    def shape_of(x):
        if isinstance(x, np.ndarray):
            return x.shape
        if hasattr(x, "to_numpy"):
            return x.to_numpy().shape
        if isinstance(x, (list, tuple, range, array.array)):
            if not len(x):
                return (0,)
            ss = {shape_of(y) for y in x}
            if len(ss) > 1:
                raise ValueError("setting an array element with a sequence. The requested "
                                 "array has an inhomogeneous shape")
            return (len(x), *ss.pop())
        return ()
    sh = shape_of(lst)
    flat = []

    def walk(x, d):
        if d == len(sh):
            flat.append(norm_scalar(x))
            return
        if hasattr(x, "to_numpy"):
            x = x.to_numpy()
        for y in (x.view(np.ndarray) if isinstance(x, np.ndarray) else x):
            walk(y, d + 1)
    walk(lst, 0)
    o = np.empty(len(flat), dtype=object)
    for i, x in enumerate(flat):
        o[i] = x
    k = kind or infer_kind(flat)
    o = o.reshape(sh)
    r = SymArray.of(o, k)
    if k != "O":
        r = elem1(lambda x: coerce_kind(x, k), r, k)
    return r


def coerce_value(value, k):
    if isinstance(value, Sym) or np.isscalar(value) or value is None:
        return coerce_kind(value, k)
    if isinstance(value, np.ndarray):
        if value.ndim == 0:
            return coerce_kind(value.item(), k)
        if isinstance(value, SymArray) and value.kind == k:
            return value.view(np.ndarray)
        return elem1(lambda x: coerce_kind(x, k), as_sarr(value), k).view(np.ndarray)
    if isinstance(value, (list, tuple, range)) or hasattr(value, "to_numpy"):
        return elem1(lambda x: coerce_kind(x, k), as_sarr(value), k).view(np.ndarray)
    return coerce_kind(value, k)


def conc_mask(m):
    """Concrete Boolean mask by forking on each element."""
    b = m.view(np.ndarray) if isinstance(m, np.ndarray) else np.asarray(m, dtype=object)
    out = np.empty(b.shape, dtype=bool)
    for i in np.ndindex(*b.shape):
        out[i] = bool(b[i])
    return out


def sym_mask(key):
    """The mask when key is a Boolean mask with symbolic elements."""
    if type(key).__module__.startswith("pandas") and hasattr(key, "to_numpy"):
        key = key.to_numpy()
    if isinstance(key, np.ndarray) and key.dtype == object and key.ndim > 0:
        a = as_sarr(key)
        if a.kind == "b" and not a.is_conc:
            return a.view(np.ndarray)
    if isinstance(key, SymBool):
        return None
    return None


def conc_key1(k, dim=None):
    if isinstance(k, SymInt):
        return k.concretise()
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, slice):
        return slice(*(x.__index__() if isinstance(x, Sym) else
                       (int(x) if isinstance(x, np.integer) else x)
                       for x in (k.start, k.stop, k.step)))
    if type(k).__module__.startswith("pandas") and hasattr(k, "to_numpy"):
        k = k.to_numpy()
    if isinstance(k, (list, tuple)) and has_sym(k):
        k = as_sarr(k)
    if isinstance(k, np.ndarray) and k.dtype == object:
        a = as_sarr(k)
        if a.ndim == 0:
            return conc_key1(a.item())
        if a.kind == "b" and a.size:
            return conc_mask(a)
        if a.kind == "i":
            out = np.empty(a.shape, dtype=np.int64)
            b = a.view(np.ndarray)
            for i in np.ndindex(*b.shape):
                out[i] = int(b[i].__index__())
            return out
        if a.size == 0:
            return np.empty(a.shape, dtype=bool if a.kind == "b" else np.int64)
        if a.kind == "f":
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(k, (SymFloat, np.floating)):
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis "
                         "(`None`) and integer or boolean arrays are valid indices")
    return k


def conc_key(key, shape=None):
    if isinstance(key, tuple):
        return tuple(conc_key1(k) for k in key)
    return conc_key1(key)
