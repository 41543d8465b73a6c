"""Loads the repository's current source with a call hook, so that library calls on
symbolic values reach their models and everything else runs as written."""
from __future__ import annotations

import ast
import builtins
import hashlib
import importlib.abc
import importlib.util
import math
import os
import sys

import numpy as np

from . import npfuncs as NP
from . import values as V
from .arrays import SymArray, as_sarr, conc_key, conc_key1, has_sym, kind_of_dtype, coerce_kind
from .core import PathAbort, Unsupported, cur, func_key
from .values import Sym, SymBool, SymFloat, SymInt, ite

REPO = os.environ.get("SX_REPO", "/repo")
PKG = "instancespace"
SOURCES = {}      # module -> (path, sha256)
FUNC_LINES = {}   # qualified name -> line

NO_HOOK = {"super", "locals", "globals", "vars", "dir", "eval", "exec", "__import__"}


class Rewriter(ast.NodeTransformer):
    def __init__(self, mod):
        self.mod = mod
        self.stack = []

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        n.body = [self.visit(x) for x in n.body]
        n.decorator_list = [self.visit(x) for x in n.decorator_list]
        self.stack.pop()
        return n

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        q = f"{self.mod}:{'.'.join(self.stack)}"
        FUNC_LINES[q] = n.lineno
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d is not None else None
                              for d in n.args.kw_defaults]
        body = [self.visit(x) for x in n.body]
        flat = []
        for b in body:
            flat.extend(b if isinstance(b, list) else [b])
        ent = ast.Expr(ast.Call(ast.Attribute(ast.Name("__sx__", ast.Load()), "enter",
                                              ast.Load()), [ast.Constant(q)], []))
        pos = 1 if (flat and isinstance(flat[0], ast.Expr) and
                    isinstance(flat[0].value, ast.Constant) and
                    isinstance(flat[0].value.value, str)) else 0
        flat.insert(pos, ent)
        n.body = flat
        self.stack.pop()
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        n.target = self.visit(n.target) if not isinstance(n.target, ast.Name) else n.target
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in NO_HOOK:
            return n
        return ast.Call(ast.Attribute(ast.Name("__sx__", ast.Load()), "call", ast.Load()),
                        [n.func, *n.args], n.keywords)

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            sl = n.slice
            sl = _slice_expr(sl)
            return ast.Call(ast.Attribute(ast.Name("__sx__", ast.Load()), "getitem",
                                          ast.Load()), [n.value, sl], [])
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
            t = n.targets[0]
            return ast.Expr(ast.Call(
                ast.Attribute(ast.Name("__sx__", ast.Load()), "setitem", ast.Load()),
                [t.value, _slice_expr(t.slice), n.value], []))
        return n

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return ast.Call(ast.Attribute(ast.Name("__sx__", ast.Load()), "not_", ast.Load()),
                            [n.operand], [])
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        return n


def _slice_expr(sl):
    def conv(s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(None)
            return ast.Call(ast.Attribute(ast.Name("__sx__", ast.Load()), "slice_", ast.Load()),
                            [s.lower or none, s.upper or none, s.step or none], [])
        return s
    if isinstance(sl, ast.Tuple):
        return ast.Tuple([conv(e) for e in sl.elts], ast.Load())
    return conv(sl)


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, "rb") as f:
            src = f.read()
        SOURCES[module.__name__] = (os.path.relpath(self.path, REPO),
                                    hashlib.sha256(src).hexdigest()[:16])
        tree = ast.parse(src, self.path)
        tree = Rewriter(module.__name__).visit(tree)
        ast.fix_missing_locations(tree)
        module.__dict__["__sx__"] = Runtime
        exec(compile(tree, self.path, "exec"), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        rel = name.split(".")
        base = os.path.join(REPO, *rel)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                name, p, loader=Loader(p), submodule_search_locations=[base])
        p = base + ".py"
        if os.path.exists(p):
            return importlib.util.spec_from_file_location(name, p, loader=Loader(p))
        return None


def install():
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())


# --------------------------------------------------------------------- runtime


def b_int(x=0, *a):
    if isinstance(x, SymFloat):
        r = x.resolve()
        return r.trunc() if isinstance(r, SymFloat) else int(r)
    if isinstance(x, SymBool):
        return x.as_int()
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymArray) and x.size == 1:
        return b_int(x.item())
    return int(x, *a)


def b_float(x=0.0):
    if isinstance(x, (SymInt, SymBool)):
        return coerce_kind(x, "f")
    if isinstance(x, SymFloat):
        return x
    if isinstance(x, SymArray) and x.size == 1:
        return b_float(x.item())
    return float(x)


def b_bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        return x != 0
    if isinstance(x, SymArray) and x.size == 1:
        return b_bool(x.item())
    return bool(x)


def b_isinstance(x, t):
    if isinstance(x, Sym):
        ts = t if isinstance(t, tuple) else getattr(t, "__args__", (t,))
        for u in ts:
            if isinstance(u, tuple):
                if b_isinstance(x, u):
                    return True
                continue
            k = V
            if u in (float, np.floating, np.float64, np.double, np.inexact) and \
                    isinstance(x, SymFloat):
                return True
            if u in (int, np.integer, np.int64, np.int_, np.intc, np.signedinteger) and \
                    isinstance(x, SymInt):
                return True
            if u in (bool, np.bool_) and isinstance(x, SymBool):
                return True
            if u is int and isinstance(x, SymBool):
                return True
            if u in (np.number,) and not isinstance(x, SymBool):
                return True
            if isinstance(u, type) and isinstance(x, u):
                return True
        return False
    return isinstance(x, t)


def _two(args):
    return list(args[0]) if len(args) == 1 else list(args)


def b_max(*a, **k):
    if k or not has_sym(a):
        return max(*a, **k)
    xs = _two(a)
    if not all(isinstance(x, (Sym, int, float, np.number, np.bool_)) for x in xs):
        return max(*a, **k)
    r = xs[0]
    for x in xs[1:]:
        r = ite(x > r, x, r)
    return r


def b_min(*a, **k):
    if k or not has_sym(a):
        return min(*a, **k)
    xs = _two(a)
    if not all(isinstance(x, (Sym, int, float, np.number, np.bool_)) for x in xs):
        return min(*a, **k)
    r = xs[0]
    for x in xs[1:]:
        r = ite(x < r, x, r)
    return r


def b_sum(xs, start=0):
    xs = list(xs)
    if has_sym(xs) and all(isinstance(x, (Sym, int, float, np.number, np.bool_)) for x in xs):
        return NP.lin_sum(xs + ([start] if not (isinstance(start, int) and start == 0) else []))
    return sum(xs, start)


def b_all(xs):
    if isinstance(xs, np.ndarray):
        xs = list(xs)
    for x in xs:
        if not x:
            return False
    return True


def b_any(xs):
    if isinstance(xs, np.ndarray):
        xs = list(xs)
    for x in xs:
        if x:
            return True
    return False


def b_range(*a):
    return range(*[x.__index__() if isinstance(x, Sym) else x for x in a])


def b_sorted(xs, *, key=None, reverse=False):
    return sorted(xs, key=key, reverse=reverse)


def b_round(x, n=None):
    if isinstance(x, Sym):
        return x.__round__(n) if n is not None else x.__round__()
    return round(x, n) if n is not None else round(x)


def b_str(*a):
    return str(*a)


def m_isnan(x):
    return NP.s_isnan(x) if isinstance(x, Sym) else math.isnan(x)


BUILTINS = {
    int: b_int, float: b_float, bool: b_bool, isinstance: b_isinstance, max: b_max, min: b_min,
    sum: b_sum, range: b_range, round: b_round,
    math.sqrt: NP.s_sqrt, math.isnan: m_isnan, math.isinf: NP.s_isinf,
    math.isfinite: NP.s_isfinite, math.fabs: abs,
    math.floor: lambda x: x.__floor__() if isinstance(x, SymFloat) else math.floor(x),
    math.ceil: lambda x: x.__ceil__() if isinstance(x, SymFloat) else math.ceil(x),
    np.float64: b_float, np.int64: b_int, np.bool_: b_bool, np.double: b_float,
    np.int_: b_int, np.intc: b_int, np.float32: b_float, np.float16: b_float,
    np.isscalar: lambda x: True if isinstance(x, Sym) else np.isscalar(x),
}
BUILTINS_ALWAYS = {b_any: None}

LIBMODELS = {}     # function -> symbolic model, filled by sx.libs


def in_repo(f):
    m = getattr(f, "__module__", None)
    return isinstance(m, str) and (m == PKG or m.startswith(PKG + "."))


class Runtime:
    @staticmethod
    def enter(q):
        c = cur()
        if c is not None:
            c.stats.entered.add(q)

    @staticmethod
    def not_(x):
        if isinstance(x, SymBool):
            return not bool(x)
        return not x

    @staticmethod
    def slice_(a, b, c):
        return slice(a, b, c)

    @staticmethod
    def getitem(o, k):
        c = cur()
        if c is None or c.mode == "conc":
            return o[k]
        if isinstance(o, SymArray):
            return o[k]
        if isinstance(o, np.ndarray):
            if isinstance(k, (Sym, SymArray, tuple, list, slice)) or hasattr(k, "to_numpy"):
                k2 = _native_key(k)
                return NP.wrap_native(o[k2])
            return NP.wrap_native(o[k])
        t = type(o)
        if t.__module__.startswith("pandas"):
            from .libs import pandas_getitem
            return pandas_getitem(o, k)
        if isinstance(k, (SymInt, SymBool, slice)) and isinstance(o, (list, tuple, str, range)):
            return o[conc_key1(k)]
        return o[k]

    @staticmethod
    def setitem(o, k, v):
        c = cur()
        if c is None or c.mode == "conc":
            o[k] = v
            return
        if isinstance(o, SymArray):
            o[k] = v
            return
        if isinstance(o, np.ndarray):
            k = _native_key(k)
            if has_sym(v):
                raise Unsupported("symbolic value stored into a native array")
            if isinstance(v, SymArray):
                v = v.native()
            o[k] = v
            return
        t = type(o)
        if t.__module__.startswith("pandas"):
            from .libs import pandas_setitem
            pandas_setitem(o, k, v)
            return
        if isinstance(k, (SymInt, SymBool, slice)) and isinstance(o, list):
            o[conc_key1(k)] = v
            return
        o[k] = v

    @staticmethod
    def call(f, *a, **k):
        c = cur()
        if c is None:
            return f(*a, **k)
        st = c.stub_table
        if st:
            try:
                h = st.get(f)
            except TypeError:
                h = None
            if h is None and getattr(f, "__self__", None) is not None and \
                    hasattr(f, "__func__"):
                h = st.get(func_key(f))
                if h is None and f.__func__ in st:      # stub of a method of the class
                    return st[f.__func__](f.__self__, *a, **k)
            if h is not None:
                return h(*a, **k)
        if c.mode == "conc":
            return f(*a, **k)
        return sym_call(f, a, k)


def _native_key(k):
    if isinstance(k, tuple):
        return tuple(_native_key(x) for x in k)
    k = conc_key1(k)
    if isinstance(k, SymArray):
        k = k.native()
        if k.dtype == object:
            k = k.astype(int)
    return k


def sym_call(f, a, k):
    try:
        h = BUILTINS.get(f)
    except TypeError:
        return f(*a, **k)
    if h is not None:
        return h(*a, **k)
    if f in NP.CREATE:
        return NP.CREATE[f](*a, **k)
    h = LIBMODELS.get(f)
    if h is not None:
        return h(*a, **k)
    if isinstance(f, np.ufunc):
        if _has_arr(a) or has_sym(a):
            return NP.ufunc(f, "__call__", a, dict(k))
        return NP.wrap_native(f(*a, **k))
    self = getattr(f, "__self__", None)
    if self is not None and not isinstance(self, type) and not _is_module(self):
        if isinstance(self, np.ufunc):
            return NP.ufunc(self, f.__name__, a, dict(k))
        if isinstance(self, (SymArray, Sym)):
            return f(*a, **k)
        mod = type(self).__module__
        if mod.startswith("pandas"):
            from .libs import pandas_method
            return pandas_method(self, f, a, k)
        if mod.startswith("numpy"):
            return NP.wrap_native(f(*NP.native_of(a), **NP.native_of(k)))
        if mod == "loguru._logger":
            return None
        return f(*a, **k)
    if in_repo(f):
        return f(*a, **k)
    mod = getattr(f, "__module__", None) or ""
    if mod.startswith("numpy") or f in NP.FUNCS:
        if f in NP.FUNCS:
            if _has_arr(a) or has_sym(a) or _has_arr(k.values()):
                return NP.FUNCS[f](*a, **k)
            return NP.wrap_native(f(*a, **k))
        if getattr(f, "__name__", "") in NP.STRUCT:
            return NP.struct_call(f, a, k)
        if isinstance(f, type):
            return f(*a, **k)
        return NP.fallback(f, a, k)
    if mod.startswith("pandas"):
        from .libs import pandas_func
        return pandas_func(f, a, k)
    if f is print:
        return None
    if mod.split(".")[0] in ("scipy", "sklearn", "skopt", "shapely", "pygad", "alphashape",
                             "matplotlib"):
        if has_sym(a) or has_sym(k):
            raise Unsupported(f"no model for {mod}.{getattr(f, '__qualname__', f)}")
        return NP.fallback(f, a, k)
    return f(*a, **k)


def _has_arr(a):
    for x in a:
        if isinstance(x, np.ndarray):
            return True
        if isinstance(x, (list, tuple)) and _has_arr(x):
            return True
    return False


def _is_module(x):
    import types
    return isinstance(x, types.ModuleType)
