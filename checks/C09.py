from checks.prelim_common import *
from sx.run import H

PROPERTY = "C09"
LEVEL = "model_checking"


def bound(ctx, n, nf, on, nan=False, inf=()):
    x = matrix(ctx, "x", n, nf, -1000, 1000, nan=nan)
    for i, v in enumerate(inf):     # infinite values at the end of every column
        x[n - 1 - i, :] = v
    X = raw(x.copy())
    for j in range(nf):
        if nan:      # preprocessing leaves features with at most a fifth of values missing
            ctx.assume(count([isnan(v) for v in X[:, j]]) <= 1)
    y = const(ctx, np.arange(1.0, n + 1).reshape(n, 1))
    o = run(x, y, popts(bound=on))
    xo = raw(o.x)
    ctx.check(np.bool_(xo.shape == (n, nf)), "bounding keeps the shape")
    for j in range(nf):
        col = [v for v in X[:, j] if not bool(isnan(v))]
        med = median(col)
        iq = quantile_mid(col, .75) - quantile_mid(col, .25)
        hi, lo = med + 5 * iq, med - 5 * iq
        ctx.check(eq(raw(o.med_val)[j], med), "reported median")
        ctx.check(eq(raw(o.iq_range)[j], iq), "reported interquartile range")
        ctx.check(eq(raw(o.hi_bound)[j], hi), "reported upper bound")
        ctx.check(eq(raw(o.lo_bound)[j], lo), "reported lower bound")
        for i in range(n):
            v = X[i, j]
            if bool(isnan(v)):
                ctx.check(isnan(xo[i, j]), "a missing value stays missing")
            elif on:
                ctx.check(eq(xo[i, j], mn([mx([v, lo]), hi])),
                          "values are clamped to the bounds and otherwise unchanged")
            else:
                ctx.check(eq(xo[i, j], v), "no value changes when bounding is off")
    b = raw(x)
    ctx.check(And(*[eq(b[i, j], X[i, j]) for i in range(n) for j in range(nf)]),
              "the caller's features are not modified")
    ctx.reach()


HARNESSES = [
    H(bound, [dict(n=5, nf=1, on=True), dict(n=5, nf=2, on=True),
              dict(n=5, nf=2, on=False), dict(n=6, nf=1, on=True, nan=True),
              dict(n=4, nf=1, on=True), dict(n=8, nf=1, on=True), dict(n=6, nf=1, on=True, inf=(np.inf,)),
              dict(n=6, nf=1, on=True, inf=(-np.inf,)),
              dict(n=7, nf=1, on=False, inf=(-np.inf, np.inf))],
      [dict(n=6, nf=1, on=True), dict(n=7, nf=1, on=True), dict(n=6, nf=2, on=True), dict(n=7, nf=1, on=True, nan=True),
       dict(n=5, nf=3, on=False), dict(n=8, nf=1, on=True), dict(n=9, nf=1, on=True)]),
]
BOUNDS = ("4 to 8 instances, 1 to 2 features, |x| <= 1000, at most one missing and two infinite "
          "values per feature")
EXPLANATION = ("PrelimStage bounds symbolic features; median and quartiles are computed by symbolic "
               "sorting, and outputs and reported bounds must equal the definition.")
OUTSIDE = ("more instances; so many infinite values that the quartiles are infinite")
