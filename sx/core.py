"""Path-exploring symbolic executor: contexts, forking, obligations.

The repository's Python code runs unmodified in meaning on symbolic values
(``sx.values``); every branch on a symbolic condition consults an SMT solver
(z3) and forks by re-execution.  At the end of a path (or at any point) a
harness states obligations; each is one solver query "path condition and not
property", decided for every value of the symbolic inputs on that path.
"""
from __future__ import annotations

import time
from fractions import Fraction

import z3

__all__ = [
    "Ctx", "PathAbort", "Unsupported", "Violation", "StopExploration", "cur", "set_cur",
    "is_sym_bool_expr",
]


class EngineSignal(BaseException):
    """Base of the engine's own control flow (never caught by code under test)."""


class PathAbort(EngineSignal):
    """The current path is infeasible or finished early."""


class Unsupported(EngineSignal):
    """An operation the encoding does not cover was reached."""


class Violation(EngineSignal):
    """An obligation failed; carries the counterexample."""

    def __init__(self, label, values, detail=""):
        super().__init__(label)
        self.label = label
        self.values = values
        self.detail = detail


class StopExploration(EngineSignal):
    """Budget exhausted."""


_CUR: list = [None]


def cur() -> "Ctx":
    return _CUR[0]


def set_cur(c):
    _CUR[0] = c


def is_sym_bool_expr(e):
    return isinstance(e, z3.BoolRef)


class Stats:
    FIELDS = ("paths", "infeasible", "forks", "feas_queries", "obligations", "discharged",
              "obligation_queries", "trivial_obligations", "concretised_paths", "unknown",
              "reached", "normal_form")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.entered = set()
        self.unsupported = {}
        self.stubs = set()
        self.samples = []
        self.labels = {}

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d.update(solver_s=self.solver_s, entered=sorted(self.entered),
                 unsupported=self.unsupported, stubs=sorted(self.stubs),
                 samples=self.samples, labels=self.labels)
        return d


class Ctx:
    """One harness exploration (mode 'sym') or one concrete re-run (mode 'conc')."""

    def __init__(self, mode="sym", values=None, query_timeout_ms=20000, deadline=None,
                 prefix=()):
        self.mode = mode
        self.values = dict(values or {})
        self.stats = Stats()
        self.query_timeout_ms = query_timeout_ms
        self.deadline = deadline
        self.stub_table = {}
        self.failures = []          # conc mode
        self.notes = {}
        if mode == "sym":
            self.solver = z3.Solver()
            self.solver.set("timeout", query_timeout_ms)
            self._stack = []        # ids of asserted exprs (kept alive in _exprs)
            self._exprs = []
        self.prefix = list(prefix)
        self.reset_path()

    # ---------------------------------------------------------------- path
    def reset_path(self):
        self.trace = []             # decisions taken so far
        self.pc_pos = 0             # position in solver stack
        self.inputs = {}            # name -> sym term
        self.defs = {}              # definitional caches (sqrt etc.)
        self.keep = []
        self.fresh_n = 0
        self.model = None
        self.stub_table = {}
        self.failures = []
        self.notes = {}

    def fresh_id(self, tag="t"):
        self.fresh_n += 1
        return f"{tag}!{self.fresh_n}"

    def _push(self, e):
        """Assert e at the next stack position, reusing an identical prefix."""
        i = self.pc_pos
        if i < len(self._stack):
            if self._stack[i] == e.get_id():
                self.pc_pos += 1
                return
            n = len(self._stack) - i
            self.solver.pop(n)
            del self._stack[i:]
            del self._exprs[i:]
        self.solver.push()
        self.solver.add(e)
        self._stack.append(e.get_id())
        self._exprs.append(e)
        self.pc_pos += 1

    def _sync(self):
        if self.pc_pos < len(self._stack):
            n = len(self._stack) - self.pc_pos
            self.solver.pop(n)
            del self._stack[self.pc_pos:]
            del self._exprs[self.pc_pos:]

    def _check(self, *extra, kind="feas"):
        self._sync()
        if self.deadline is not None and time.time() > self.deadline:
            raise StopExploration("deadline")
        t = time.time()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        if kind == "feas":
            self.stats.feas_queries += 1
        else:
            self.stats.obligation_queries += 1
        return r

    # ---------------------------------------------------------------- decisions
    def branch(self, e):
        """Decide a symbolic Boolean; fork when both sides are feasible."""
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        pos = len(self.trace)
        ne = z3.Not(e)
        if pos < len(self.prefix):
            d = self.prefix[pos]
            self.trace.append(d)
            if d in (0, 1):
                self._push(e if d else ne)
            else:           # forced decision recorded without assertion
                return d == 3
            return bool(d)
        can_t = can_f = None
        if self.model is not None:
            v = self.model.eval(e, model_completion=True)
            if z3.is_true(v):
                can_t = True
            elif z3.is_false(v):
                can_f = True
        m_t = self.model if can_t else None
        m_f = self.model if can_f else None
        if can_t is None:
            r = self._check(e)
            can_t = r != z3.unsat
            if r == z3.sat:
                m_t = self.solver.model()
            elif r == z3.unknown:
                self.stats.unknown += 1
        if can_f is None:
            if not can_t:
                can_f = True
            else:
                r = self._check(ne)
                can_f = r != z3.unsat
                if r == z3.sat:
                    m_f = self.solver.model()
                elif r == z3.unknown:
                    self.stats.unknown += 1
        if can_t and can_f:
            self.stats.forks += 1
            self.work.append(self.trace + [0])
            self.trace.append(1)
            self._push(e)
            self.model = m_t
            return True
        if can_t:
            self.trace.append(3)
            self.model = m_t or self.model
            return True
        self.trace.append(2)
        self.model = m_f or self.model
        return False

    def decided(self, e):
        """True/False when the path condition settles e (no fork), else None."""
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        pos = len(self.trace)
        if pos < len(self.prefix):
            d = self.prefix[pos]
            self.trace.append(d)
            return {"T": True, "F": False, "N": None}[d]
        if self.model is None:
            self.feasible()
        v = self.model.eval(e, model_completion=True) if self.model is not None else None
        r = None
        self.solver.set("timeout", 500)
        if v is None or not z3.is_false(v):
            if self._check(z3.Not(e)) == z3.unsat:
                r = True
        if r is None and (v is None or not z3.is_true(v)):
            if self._check(e) == z3.unsat:
                r = False
        self.solver.set("timeout", self.query_timeout_ms)
        self.trace.append("N" if r is None else ("T" if r else "F"))
        return r

    def assume(self, cond):
        """Constrain inputs (or record a contract of a stub)."""
        from .values import SymBool
        if isinstance(cond, SymBool):
            cond = cond.e
        if not isinstance(cond, z3.BoolRef):
            if self.mode == "conc":
                if not bool(cond):
                    raise PathAbort("assumption false")
                return
            if not bool(cond):
                raise PathAbort("assumption false")
            return
        e = z3.simplify(cond)
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise PathAbort("assumption false")
        self._push(e)
        if self.model is not None:
            v = self.model.eval(e, model_completion=True)
            if not z3.is_true(v):
                self.model = None
        self._need_feas = True

    def define(self, e):
        """Assert a definitional constraint (always satisfiable)."""
        self._push(e)
        self.model = None

    def feasible(self):
        r = self._check()
        if r == z3.sat:
            self.model = self.solver.model()
        return r != z3.unsat

    def ensure_feasible(self):
        if self.mode == "conc":
            return
        if not self.feasible():
            raise PathAbort("infeasible")

    # ---------------------------------------------------------------- inputs
    def _reg(self, name, term):
        if name in self.inputs:
            raise AssertionError(f"input {name} created twice")
        self.inputs[name] = term
        return term

    def real(self, name, lo=None, hi=None):
        from . import values as V
        if self.mode == "conc":
            import numpy as np
            return np.float64(self.values.get(name, 0.0))
        t = z3.Real(name)
        self._reg(name, t)
        s = V.SymFloat(t)
        if lo is not None:
            self.assume(V.SymBool(t >= V.rv(lo)))
        if hi is not None:
            self.assume(V.SymBool(t <= V.rv(hi)))
        return s

    def real_or_nan(self, name, lo=None, hi=None):
        from . import values as V
        if self.mode == "conc":
            import numpy as np
            if self.values.get(name + "?nan"):
                return np.float64("nan")
            return np.float64(self.values.get(name, 0.0))
        r = self.real(name, lo, hi)
        b = z3.Bool(name + "?nan")
        self._reg(name + "?nan", b)
        return V.SymFloat(r.v, nan=b)

    def int(self, name, lo=None, hi=None):
        from . import values as V
        if self.mode == "conc":
            return int(self.values.get(name, lo if lo is not None else 0))
        t = z3.Int(name)
        self._reg(name, t)
        if lo is not None:
            self.assume(V.SymBool(t >= lo))
        if hi is not None:
            self.assume(V.SymBool(t <= hi))
        return V.SymInt(t)

    def bool(self, name):
        from . import values as V
        if self.mode == "conc":
            return bool(self.values.get(name, False))
        t = z3.Bool(name)
        self._reg(name, t)
        return V.SymBool(t)

    def choose(self, name, options):
        """Arbitrary element of a finite list (forks)."""
        i = self.int(name, 0, len(options) - 1)
        if self.mode == "conc":
            return options[i]
        for k in range(len(options) - 1):
            if bool(i == k):
                return options[k]
        return options[-1]

    # ---------------------------------------------------------------- obligations
    def extract(self, model):
        out = {}
        for n, t in self.inputs.items():
            v = model.eval(t, model_completion=True)
            if z3.is_bool(t):
                out[n] = z3.is_true(v)
            elif z3.is_int(t):
                out[n] = v.as_long()
            else:
                out[n] = _to_float(v)
        return out

    def check(self, cond, label, detail=""):
        """State an obligation: cond must hold for every value on this path."""
        from .values import SymBool
        st = self.stats
        if self.mode == "conc":
            import numpy as np
            c = cond
            if isinstance(c, np.ndarray):
                c = bool(np.all(c))
            self.stats.obligations += 1
            if not bool(c):
                self.failures.append((label, detail() if callable(detail) else detail))
            return
        st.obligations += 1
        st.labels[label] = st.labels.get(label, 0) + 1
        if isinstance(cond, SymBool):
            cond = cond.e
        if not isinstance(cond, z3.BoolRef):
            if bool(cond):
                # decided by path condition: the path condition itself is the query
                st.trivial_obligations += 1
                st.discharged += 1
                return
            if not self.feasible():
                st.obligations -= 1
                st.labels[label] -= 1
                raise PathAbort("infeasible")
            raise Violation(label, self.nice_model(z3.BoolVal(True)),
                            detail() if callable(detail) else detail)
        e = z3.simplify(cond, som=True)
        if z3.is_true(e):
            st.normal_form += 1
            st.discharged += 1
            return
        ne = z3.Not(cond)
        self.solver.set("timeout", min(4000, self.query_timeout_ms))
        r = self._check(ne, kind="ob")
        self.solver.set("timeout", self.query_timeout_ms)
        if r == z3.unsat:
            st.discharged += 1
            return
        if r == z3.unknown:
            r = self._retry(ne)
            if r == z3.unsat:
                st.discharged += 1
                return
        if r == z3.unknown:
            st.unknown += 1
            raise Unsupported(f"solver unknown on obligation {label}")
        raise Violation(label, self.nice_model(ne),
                        detail() if callable(detail) else detail)

    def _retry(self, ne):
        for tac in (("simplify", "purify-arith", "nlsat"), ("qfnra-nlsat",), ("smt",)):
            try:
                s = z3.Then(*tac).solver() if len(tac) > 1 else z3.Tactic(tac[0]).solver()
                s.set("timeout", self.query_timeout_ms)
                for x in self._exprs[:self.pc_pos]:
                    s.add(x)
                s.add(ne)
                t = time.time()
                r = s.check()
                self.stats.solver_s += time.time() - t
                self.stats.obligation_queries += 1
                if r == z3.unsat:
                    return r
                if r == z3.sat:
                    # re-ask the main solver in the neighbourhood of this model
                    return r
            except z3.Z3Exception:
                continue
        return z3.unknown

    def nice_model(self, ne):
        """Counterexample with small dyadic reals when one exists."""
        reals = [t for t in self.inputs.values() if z3.is_real(t)]
        ints = [z3.Int(f"nice!{i}") for i in range(len(reals))]
        for den, lim in ((1, 8), (2, 16), (8, 64), (64, 1 << 12)):
            s = z3.Solver()
            s.set("timeout", 4000)
            for x in self._exprs[:self.pc_pos]:
                s.add(x)
            s.add(ne)
            for t, k in zip(reals, ints):
                s.add(t * den == z3.ToReal(k), k >= -lim * den, k <= lim * den)
            if s.check() == z3.sat:
                return [self.extract(s.model())] + self._more(ne)
        return self._more(ne)

    def _more(self, ne):
        out = []
        s = z3.Solver()
        s.set("timeout", 8000)
        for x in self._exprs[:self.pc_pos]:
            s.add(x)
        s.add(ne)
        if s.check() == z3.sat:
            m = s.model()
            out.append(self.extract(m))
        else:
            s = z3.Tactic("qfnra-nlsat").solver()
            s.set("timeout", 8000)
            try:
                for x in self._exprs[:self.pc_pos]:
                    s.add(x)
                s.add(ne)
                if s.check() == z3.sat:
                    out.append(self.extract(s.model()))
            except z3.Z3Exception:
                pass
        return out

    def path_model(self):
        self._sync()
        try:
            r = self.nice_model(z3.BoolVal(True))
            return r[0] if r else None
        except z3.Z3Exception:
            return None

    def reach(self):
        """Reachability witness: this point lies on a feasible path."""
        self.stats.reached += 1
        if self.mode == "sym" and len(self.stats.samples) < 2:
            self._sync()
            r = self._check()
            if r == z3.sat:
                self.stats.samples.append(self.extract(self.solver.model()))

    def stub(self, func, impl, name=None):
        """Replace an environment function (by identity) by a nondeterministic model."""
        self.stub_table[func_key(func)] = impl
        self.stats.stubs.add(name or getattr(func, "__qualname__", repr(func)))


def func_key(f):
    import types
    if isinstance(f, types.MethodType):
        return ("m", id(f.__self__), f.__func__)
    try:
        hash(f)
        return f
    except TypeError:
        return id(f)


def _to_float(v):
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return float(v.as_decimal(20).rstrip("?"))


def _degrade(ctx, msg, degraded):
    k = msg[:300]
    ctx.stats.unsupported[k] = ctx.stats.unsupported.get(k, 0) + 1
    m = None
    if ctx.stats.concretised_paths <= 40:
        m = ctx.path_model()
    degraded.append((k, m))


def where(e):
    import traceback
    fs = traceback.extract_tb(e.__traceback__)
    return " @ " + " < ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in fs[::-1][:4])


def explore(harness, ctx, max_paths=None, prefixes=None, budget_s=None):
    """Depth-first exploration.  Returns list of candidate violations and status."""
    from . import hook
    ctx.work = [list(p) for p in (prefixes or [[]])]
    viol = []
    status = "complete"
    degraded = []
    per = {}
    t0 = time.time()
    while ctx.work:
        if max_paths is not None and ctx.stats.paths >= max_paths:
            status = "max_paths"
            break
        if budget_s is not None and time.time() - t0 > budget_s:
            status = "handoff"
            break
        prefix = ctx.work.pop()
        ctx.reset_path()
        ctx.prefix = prefix
        set_cur(ctx)
        try:
            harness(ctx)
            ctx.stats.paths += 1
        except PathAbort:
            ctx.stats.infeasible += 1
        except Violation as v:
            ctx.stats.paths += 1
            per[v.label] = per.get(v.label, 0) + 1
            if per[v.label] <= 3:
                viol.append(v)
            if sum(per.values()) >= 200:
                status = "many_violations"
                break
        except StopExploration as s:
            status = str(s)
            break
        except Unsupported as u:
            ctx.stats.paths += 1
            ctx.stats.concretised_paths += 1
            _degrade(ctx, str(u), degraded)
        except Exception as e:  # noqa: BLE001 - raised by the code under test
            ctx.stats.paths += 1
            if not ctx.feasible():
                ctx.stats.infeasible += 1
                continue
            # a defect or an engine artefact: decided by the concrete replay
            w = f"raises {type(e).__name__}: {e}"[:200] + where(e)
            per[w] = per.get(w, 0) + 1
            if per[w] <= 3:
                v = Violation(f"raises {type(e).__name__}",
                              ctx.nice_model(z3.BoolVal(True)), w)
                v.exc = True
                viol.append(v)
            if sum(per.values()) >= 200:
                status = "many_violations"
                break
        finally:
            set_cur(None)
    return viol, status, degraded
