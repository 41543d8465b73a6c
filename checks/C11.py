import scipy.optimize
import scipy.stats
from checks.prelim_common import *
from sx.run import H
from sx.values import Sym

PROPERTY = "C11"
LEVEL = "model_checking"
EPS = float(np.finfo(float).eps)


def bc(x, lam):
    """Box-Cox transform of one value."""
    if isnan(x):
        return np.float64("nan")
    return uf("boxcox", x, lam, conc_fn=lambda a, b: float(scipy.special.boxcox(a, b)))


def llf(lam, col):
    return uf("boxcox_llf", lam, *col,
              conc_fn=lambda *a: float(scipy.stats.boxcox_llf(a[0], np.array(a[1:]))))


def scal(v):
    return v.ravel()[0] if isinstance(v, np.ndarray) else (v[0] if isinstance(v, list) else v)


def stubs(ctx, rec):
    probe = ctx.real("probe", -2, 2)

    def fmin(func, x0, *a, **k):
        lam = ctx.real(f"lam{len(rec)}", -2, 2)
        rec.append((lam, scal(func(vec(ctx, [probe])))))
        return vec(ctx, [lam])

    def boxcox(data, lmbda=None, *a, **k):
        d = list(raw(data))
        if lmbda is None:
            raise AssertionError("exponent not given")
        lm = scal(lmbda)
        return vec(ctx, [bc(v, lm) for v in d])

    def boxcox_llf(lmb, data, **k):
        return llf(scal(lmb), list(raw(data)))
    ctx.stub(scipy.optimize.fmin, fmin)
    ctx.stub(scipy.stats.boxcox, boxcox)
    ctx.stub(scipy.stats.boxcox_llf, boxcox_llf)
    return probe


def vec(ctx, xs):
    o = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        o[i] = x
    return finish(ctx, o, "f")


def norm(ctx, n, nf, na, maxp, absp, bound=False, nan=False):
    rec = []
    probe = stubs(ctx, rec)
    if nan == "y":      # one algorithm has no performance for the last instance
        x = const(ctx, np.arange(n * nf * 1.0).reshape(n, nf) ** 2)
        y = matrix(ctx, "y", n, na, -100 if absp else 1, 100)
        y[n - 1, na - 1] = np.nan
    else:
        x = matrix(ctx, "x", n, nf, -100, 100, nan=nan)
        y = matrix(ctx, "y", n, na, -100 if absp else 1, 100, nan=nan)
    X, Y = raw(x.copy()), raw(y.copy())
    if nan:
        for M in (X, Y):
            for j in range(M.shape[1]):
                ctx.assume(count([isnan(v) for v in M[:, j]]) <= 1)
        for i in range(n):
            ctx.assume(Or(*[Not(isnan(v)) for v in Y[i]]))
    for M in (X, Y):       # a constant column has no deviation to standardise with
        for j in range(M.shape[1]):
            c = M[:, j]
            ctx.assume(Or(*[And(Not(isnan(c[a])), Not(isnan(c[b])), Not(eq(c[a], c[b])))
                            for a in range(n) for b in range(a)]))
    o = run(x, y, popts(maxp, absp, 0.5, 0.5, bound=bound, norm=True))
    # the values that are normalised
    if bound:
        for j in range(nf):
            lo, hi = raw(o.lo_bound)[j], raw(o.hi_bound)[j]
            for i in range(n):
                X[i, j] = mn([mx([X[i, j], lo]), hi])
    if not absp:
        for i in range(n):
            for k in range(na):
                v = Y[i, k]
                if not bool(isnan(v)):
                    b = raw(o.y_best)[i]
                    Y[i, k] = 1 - v / b if maxp else 1 - b / v
    cols = [("feature", X[:, j], raw(o.x)[:, j], raw(o.min_x)[j], 1.0, raw(o.lambda_x)[j],
             raw(o.mu_x)[j], raw(o.sigma_x)[j], X[:, j]) for j in range(nf)]
    cols += [("performance", Y[:, k], raw(o.y)[:, k], scal(o.min_y), EPS, raw(o.lambda_y)[k],
              raw(o.mu_y)[k], raw(o.sigma_y)[k], Y.ravel()) for k in range(na)]
    for what, src, out, lo, off, lam, mu, sg, pool in cols:
        ok = [i for i in range(n) if not bool(isnan(src[i]))]
        ctx.check(eq(lo, mn([v for v in pool if not bool(isnan(v))])),
                  f"reported {what} minimum is the minimum of the data")
        sh = [(src[i] - lo) + off for i in ok]
        t = [bc(v, lam) for v in sh]
        m = len(ok)
        mean = total(t) / m
        ctx.check(eq(mu, mean), f"reported {what} mean is that of the transformed column")
        var = total([(v - mean) * (v - mean) for v in t]) / (m - 1)
        ctx.assume(Not(eq(var, 0)) if not conc() else np.bool_(var > 1e-9))
        ctx.check(And(ge(sg, 0), eq(sg * sg, var)),
                  f"reported {what} deviation is that of the transformed column")
        for i, v in zip(ok, t):
            ctx.check(eq(out[i] * sg, v - mu),
                      f"returned {what} is the transformed column standardised with the "
                      "reported parameters")
        for i in range(n):
            if i not in ok:
                ctx.check(isnan(out[i]), f"a missing {what} stays missing")
        if rec:
            want = -llf(probe, sh)
            ctx.check(Or(*[And(eq(lam, l), eq(v, want)) for l, v in rec]),
                      f"the {what} exponent is the one fitted to that column")
    ctx.reach()


def off(ctx, n, na, maxp, absp):
    x = matrix(ctx, "x", n, 2, -100, 100)
    y = matrix(ctx, "y", n, na, 1, 100)
    X, Y = raw(x.copy()), raw(y.copy())
    o = run(x, y, popts(maxp, absp, 0.5, 0.5))
    for i in range(n):
        for j in range(2):
            ctx.check(eq(raw(o.x)[i, j], X[i, j]), "features unchanged when not normalising")
        b = raw(o.y_best)[i]
        for k in range(na):
            v = Y[i, k]
            w = v if absp else (1 - v / b if maxp else 1 - b / v)
            ctx.check(eq(raw(o.y)[i, k], w),
                      "performances are the chosen measure when not normalising")
    ctx.reach()


MODES = [(m, a) for m in (True, False) for a in (True, False)]
HARNESSES = [
    H(norm, [dict(n=2, nf=2, na=2, maxp=True, absp=True),
             dict(n=3, nf=1, na=1, maxp=True, absp=True),
             dict(n=2, nf=1, na=2, maxp=False, absp=True),
             dict(n=2, nf=1, na=2, maxp=True, absp=False),
             dict(n=2, nf=1, na=2, maxp=False, absp=False),
             dict(n=3, nf=1, na=1, maxp=True, absp=True, nan=True),
             dict(n=3, nf=1, na=2, maxp=True, absp=True, nan="y"),
             dict(n=3, nf=1, na=1, maxp=True, absp=True, bound=True)],
      [dict(n=3, nf=2, na=2, maxp=m, absp=a) for m, a in MODES] +
      [dict(n=3, nf=2, na=2, maxp=m, absp=True, nan=True) for m in (True, False)] +
      [dict(n=5, nf=1, na=1, maxp=m, absp=True, bound=True) for m in (True, False)]),
    H(off, [dict(n=2, na=2, maxp=m, absp=a) for m, a in MODES],
      [dict(n=3, na=3, maxp=m, absp=a) for m, a in MODES]),
]
BOUNDS = "2 to 3 instances, 1 to 2 features, 1 to 2 algorithms; |x|,|y| <= 100"
_ = Sym
EXPLANATION = ("PrelimStage normalises symbolic values; the reported minimum, exponent, mean and "
               "deviation must reproduce every normalised value from the original one. The exponent "
               "search is replaced by an arbitrary result, Box-Cox by an uninterpreted function of "
               "value and exponent.")
OUTSIDE = ("optimality of the exponent")
ASSUMPTIONS = [("scipy's fmin returns any number; scipy's boxcox and its likelihood are functions of "
               "their arguments")]
