import numpy as np

from sx.run import H
from sx.spec import *

PROPERTY = "C13"
LEVEL = "model_checking"


def code():
    from instancespace.utils.filter import filter_instance, do_filter, compute_uniformity
    return filter_instance, do_filter, compute_uniformity


TYPES = ("Ftr", "Ftr&AP", "Ftr&Good", "Ftr&AP&Good")


def data(ctx, n, nf, na, d1):
    """d1: only the first coordinate varies, so distances are linear."""
    x = matrix(ctx, "x", n, nf, -10, 10)
    y = matrix(ctx, "y", n, na, -10, 10)
    if d1:
        for i in range(n):
            for j in range(1, nf):
                x[i, j] = 0.0
            for j in range(1, na):
                y[i, j] = 0.0
    yb = bmatrix(ctx, "good", n, na)
    return x, y, yb


def sqd(a, i, j):
    a = raw(a)
    return total([(a[i, k] - a[j, k]) * (a[i, k] - a[j, k]) for k in range(a.shape[1])])


def near(a, i, j, r, d1):
    """Euclidean distance of rows i and j is at most r (r >= 0)."""
    b = raw(a)
    if d1:
        return And(le(b[i, 0] - b[j, 0], r), le(b[j, 0] - b[i, 0], r)) if not conc() else \
            np.bool_(np.linalg.norm(b[i] - b[j]) <= r)
    if conc():
        return np.bool_(np.linalg.norm(b[i] - b[j]) <= r)
    return sqd(a, i, j) <= r * r


def filt(ctx, n, nf, na, t, d1, dmin):
    flt, _, _ = code()
    x, y, yb = data(ctx, n, nf, na, d1)
    d = dmin if dmin is not None else ctx.real("d", 0.25, 4)
    excl, diss, visa = flt(x, y, yb, t, d)
    ratio = (na / nf) ** 0.5
    gam = d * ratio
    b = raw(yb)
    excl, diss, visa = raw(excl), raw(diss), raw(visa)
    ctx.check(np.bool_(len(excl) == n and len(diss) == n and len(visa) == n), "one flag per instance")
    close = {}
    dup = {}
    for i in range(n):
        for j in range(i + 1, n):
            close[i, j] = near(x, i, j, d, d1)
            ap = near(y, i, j, gam, d1)
            good = And(*[And(b[i, k], b[j, k]) for k in range(na)])
            cond = {"Ftr": True, "Ftr&AP": ap, "Ftr&Good": good,
                    "Ftr&AP&Good": And(ap, good)}[t]
            dup[i, j] = And(close[i, j], cond)
    for j in range(n):
        kept = [Not(excl[i]) for i in range(n)]
        ctx.check(Iff(excl[j], Or(*[And(kept[i], dup[i, j]) for i in range(j)])),
                  "an instance is excluded exactly when an earlier retained one duplicates it")
        ctx.check(Iff(Not(diss[j]), Or(*[And(kept[i], close[i, j]) for i in range(j)])),
                  "dissimilar exactly when no earlier retained instance is within the distance")
        ctx.check(Iff(visa[j], And(kept[j], Or(*[And(kept[i], close[i, j]) for i in range(j)]))),
                  "visa marks retained instances close to an earlier retained one")
    ctx.check(Not(excl[0]), "first instance retained")
    ctx.reach()


def unif(ctx, n, col=0, nf=1):
    """The features vary along one of nf columns."""
    _, _, cu = code()
    x = matrix(ctx, "x", n, nf, -8, 8)
    for i in range(n):
        for j in range(nf):
            if j != col:
                x[i, j] = 1.5
    ex = bvector(ctx, "excl", n)
    e = raw(ex)
    ctx.assume(count([Not(v) for v in e]) >= 2)
    b = raw(x)
    keep = [i for i in range(n) if not bool(e[i])]
    for i in keep:                     # case split: the order of the points, and which coincide
        for j in keep:
            if i < j and not bool(b[i, col] < b[j, col]):
                bool(b[i, col] == b[j, col])
    near_d = [mn([absv(b[i, col] - b[j, col]) for j in keep if j != i]) for i in keep]
    m = total(near_d) / len(keep)
    ctx.assume(m > 0)                  # else the statistic is not defined
    ctx.ensure_feasible()
    u = cu(x, ex)
    var = total([(v - m) * (v - m) for v in near_d]) / (len(keep) - 1)
    # u = 1 - sd/mean  <=>  (1-u)*mean = sd >= 0
    r = (1 - u) * m
    ctx.check(ge(r, 0), "uniformity is at most one")
    ctx.check(eq(r * r, var), "uniformity is one minus the coefficient of variation of nearest "
                              "neighbour distances")
    ctx.reach()


HARNESSES = [
    H(filt, [dict(n=4, nf=1, na=4, t=t, d1=True, dmin=None) for t in TYPES] +
      [dict(n=3, nf=4, na=1, t=t, d1=True, dmin=None) for t in TYPES] +
      [dict(n=2, nf=2, na=2, t=t, d1=False, dmin=1.0) for t in TYPES],
      [dict(n=5, nf=1, na=4, t=t, d1=True, dmin=None) for t in TYPES]),
    H(unif, [dict(n=2), dict(n=3), dict(n=3, col=1, nf=2)]),
]
EXPLANATION = ("The density filter runs on symbolic coordinates and performances; dropped instances "
               "must be exactly those the greedy definition drops, for each of the four kinds, with "
               "visa flags and uniformity as defined.")
BOUNDS = ("2 to 4 instances (5 in thorough); coordinates along a line (any radius) or in the "
               "plane (fixed radius)")
OUTSIDE = ("more instances")
