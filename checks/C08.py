from checks.prelim_common import *
from sx.run import H

PROPERTY = "C08"
LEVEL = "model_checking"


def label(ctx, n, na, maxp, absp, nan, zero=False, exact=False):
    y = matrix(ctx, "y", n, na, -8 if absp else (0 if zero else None), 8, nan=nan)
    b = raw(y)
    for i in range(n):
        if nan:
            ctx.assume(Or(*[Not(isnan(b[i, k])) for k in range(na)]))
        if not absp and not zero:
            for k in range(na):
                ctx.assume(Or(isnan(b[i, k]), b[i, k] > 0))
    eps = ctx.real("epsilon", 0, 2) if absp else ctx.real("epsilon", 0, 0.99)
    # at these shares the threshold is a number of algorithms without rounding
    bt = ctx.choose("beta", [0.0, 0.25, 0.5, 0.75, 1.0]) if exact else ctx.real("beta", 0, 1)
    y0 = y.copy()
    x = const(ctx, np.arange(n * 1.0).reshape(n, 1))
    o = run(x, y, popts(maxp, absp, eps, bt), y_raw=y)
    Y = raw(y0)
    yb, yB, p, ng, be = raw(o.y_bin), raw(o.y_best), raw(o.p), raw(o.num_good_algos), raw(o.beta)
    ctx.check(np.bool_(yb.shape == (n, na) and yB.shape == (n,) and p.shape == (n,) and
                       ng.shape == (n,) and be.shape == (n,)), "one label row per instance")
    TINY = 1e-9
    for i in range(n):
        ok = [Not(isnan(v)) for v in Y[i]]
        better = (lambda a, c: a >= c) if maxp else (lambda a, c: a <= c)
        best = yB[i]
        # zero best is represented by machine epsilon in relative mode
        tol = TINY if not absp else 0
        ctx.check(And(*[Implies(ok[k], better(best + tol if maxp else best - tol, Y[i, k]))
                        for k in range(na)]), "no algorithm beats the best performance")
        ctx.check(Or(*[And(ok[k], le(absv(best - Y[i, k]), tol)) for k in range(na)]),
                  "the best performance is attained")
        ctx.check(And(p[i] >= 1, p[i] <= na), "best algorithm index is a valid 1-based number")
        ctx.check(Or(*[And(ieq(p[i], k + 1), ok[k], le(absv(best - Y[i, k]), tol))
                       for k in range(na)]), "the best algorithm attains the best performance")
        true_best = None
        for k in range(na):
            good = yb[i, k]
            if absp:
                want = And(ok[k], (Y[i, k] >= eps) if maxp else (Y[i, k] <= eps))
                ctx.check(Iff(good, want), "good exactly when meeting the absolute threshold")
            else:
                # within the fraction: y >= (1-eps)*best, resp. best >= (1-eps)*y
                if zero:
                    ctx.check(Implies(And(ok[k], Y[i, k] == best), good) if not maxp else True,
                              "zero is the best possible cost")
                else:
                    w = And(ok[k], (Y[i, k] >= (1 - eps) * best) if maxp
                            else (best >= (1 - eps) * Y[i, k]))
                    ctx.check(_tolerant(ctx, good, w, Y[i, k], best, eps, maxp, ok[k]),
                              "good exactly when within the fraction of the best")
        cnt = count([yb[i, k] for k in range(na)])
        ctx.check(eq(ng[i], cnt), "number of good algorithms")
        ctx.check(_thr(be[i], cnt, bt, na, exact), "easy exactly when more than the threshold share is good")
    ctx.check(np.bool_(np.array_equal(np.asarray(raw(o.y_raw), dtype=float),
                                      np.asarray(Y, dtype=float), equal_nan=True))
              if conc() else eq_arr(o.y_raw, y0), "the raw performances are left unchanged")
    # performances
    yo = raw(o.y)
    for i in range(n):
        for k in range(na):
            if absp:
                ctx.check((np.bool_(bool(isnan(Y[i, k])) and bool(isnan(yo[i, k])) or
                                    bool(yo[i, k] == Y[i, k]))
                           if conc() else eq(yo[i, k], Y[i, k])),
                          "absolute mode leaves performances unchanged")
    ctx.reach()


def _thr(flag, cnt, bt, na, exact):
    if conc():
        if not exact and abs(float(cnt) - float(bt) * na) < 1e-9:
            return np.bool_(True)
        return np.bool_(bool(flag) == (cnt > bt * na))
    return Iff(flag, cnt > bt * na)


def _tolerant(ctx, good, want, y, best, eps, maxp, ok):
    if conc():
        if bool(ok):
            lhs, rhs = (y, (1 - eps) * best) if maxp else (best, (1 - eps) * y)
            if abs(lhs - rhs) < 1e-9 * max(1, abs(lhs)):
                return np.bool_(True)
        return np.bool_(bool(good) == bool(want))
    return Iff(good, want)


HARNESSES = [
    H(label, [dict(n=2, na=3, maxp=m, absp=True, nan=True) for m in (True, False)] +
      [dict(n=1, na=3, maxp=m, absp=False, nan=True) for m in (True, False)] +
      [dict(n=2, na=2, maxp=m, absp=False, nan=False) for m in (True, False)] +
      [dict(n=1, na=1, maxp=m, absp=a, nan=False) for m in (True, False) for a in (True, False)] +
      [dict(n=1, na=3, maxp=False, absp=False, nan=False, zero=True)] +
      [dict(n=1, na=k, maxp=m, absp=True, nan=False, exact=True)
       for m in (True, False) for k in (1, 2, 4)]),
]
EXPLANATION = ("PrelimStage labels symbolic performances under every option combination; good, best,"
               " number of good algorithms, beta and the best-algorithm index must equal the "
               "definition written as formulas over the inputs (ties and missing values included).")
BOUNDS = ("1 to 2 instances, 1 to 3 algorithms, any threshold, every pattern of missing values")
OUTSIDE = ("more instances (rows are independent in the definition); rounding exactly on a "
               "threshold")
