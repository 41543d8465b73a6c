import itertools
import types

import scipy.spatial
import scipy.stats
from scipy.spatial import QhullError

from sx.run import H
from sx.spec import *

PROPERTY = "C17"
LEVEL = "model_checking"


def run(x, a, p, c):
    from instancespace.data.options import CloisterOptions
    from instancespace.stages.cloister import CloisterInput, CloisterStage
    return CloisterStage._run(CloisterInput(x, a, CloisterOptions.default(p_val=p, c_thres=c)))


def _is(a, b):
    from sx.values import Sym
    if isinstance(a, Sym) or isinstance(b, Sym):
        return isinstance(a, Sym) and isinstance(b, Sym) and a.v.eq(b.v)
    return bool(a == b)


def rows_set(got, want):
    """The same points, each as often (up to coinciding ones)."""
    if len(got) != len(want):
        return np.bool_(False)
    eqs = [[And(eq(g[0], w[0]), eq(g[1], w[1])) for w in want] for g in got]
    return And(*[Or(*r) for r in eqs], *[Or(*[r[j] for r in eqs]) for j in range(len(want))])


def fixed(ctx, n, nf):
    x = np.array([[((5 * i + 3 * j * j + i * i) % 7) - 3.0 for j in range(nf)] for i in range(n)])
    x[0] = [-3.0 + j for j in range(nf)]
    x[1] = [2.0 + j for j in range(nf)]
    return const(ctx, x)


def corners(ctx, n, nf, sym):
    if sym == "x":
        x = matrix(ctx, "x", n, nf, -50, 50)
        a = const(ctx, np.array([[1.0 + (2 * j) % 3 for j in range(nf)],
                                 [0.5 * j * j - 1.0 for j in range(nf)]]))
    else:
        x = fixed(ctx, n, nf)
        a = matrix(ctx, "a", 2, nf, -3, 3)
    X, A = raw(x.copy()), raw(a.copy())
    lo = [mn(list(X[:, j])) for j in range(nf)]
    hi = [mx(list(X[:, j])) for j in range(nf)]
    for j in range(nf):
        ctx.assume(And(lo[j] < 0, hi[j] > 0))
    for i in range(nf):
        for j in range(i):
            ctx.assume(Not(eq(X[0, i], X[0, j])))
    rho, pv = {}, {}
    for i, j in itertools.combinations(range(nf), 2):
        rho[i, j] = ctx.real(f"rho[{i},{j}]", -1, 1)
        pv[i, j] = ctx.real(f"pval[{i},{j}]", 0, 1)

    def column(v):
        v = raw(v)
        return next(j for j in range(nf) if all(_is(p, q) for p, q in zip(v, X[:, j])))

    def pearsonr(u, v, *r, **k):
        i, j = column(u), column(v)
        if i == j:
            return 1.0, 0.0
        return rho[min(i, j), max(i, j)], pv[min(i, j), max(i, j)]
    hulls = []

    def ConvexHull(points, *r, **k):
        P = raw(points)
        t = len(hulls)
        how = ctx.choose(f"hull{t}", ["ok", "QhullError", "ValueError"]) if len(P) > 2 \
            else "ValueError"
        V = None
        if how == "ok":
            m = len(P)
            V = [list(range(m))[::-1], [m - 1, 0, 1]][ctx.choose(f"vertices{t}", [0, 1])]
        hulls.append((P.copy(), V))
        if how == "QhullError":
            raise QhullError("degenerate")
        if how == "ValueError":
            raise ValueError("no points")
        return types.SimpleNamespace(vertices=np.array(V))
    ctx.stub(scipy.stats.pearsonr, pearsonr)
    ctx.stub(scipy.spatial.ConvexHull, ConvexHull)
    thr = ctx.real("threshold", 0.01, 1)
    p = ctx.real("pvalue", 0.001, 0.5)
    o = run(x, a, p, thr)
    every, kept = [], []
    for bits in itertools.product((0, 1), repeat=nf):
        c = [hi[j] if bits[j] else lo[j] for j in range(nf)]
        pt = [total([c[j] * A[r, j] for j in range(nf)]) for r in range(2)]
        every.append(pt)
        bad = Or(*[And(pv[i, j] <= p, Or(And(rho[i, j] > thr, np.bool_(bits[i] != bits[j])),
                                         And(rho[i, j] < -thr, np.bool_(bits[i] == bits[j]))))
                   for i, j in rho])
        if not bool(bad):
            kept.append(pt)
    ctx.check(np.bool_(len(hulls) >= 1), "a hull of the candidates is formed")
    if not hulls:
        return
    ctx.check(rows_set(hulls[0][0], every), "the candidates are the projected corners")
    if len(hulls) > 1:
        ctx.check(rows_set(hulls[1][0], kept), "the second hull is that of the surviving corners")
        ctx.check(np.bool_(len(hulls) == 2), "two hulls")
    else:
        ctx.check(np.bool_(len(kept) <= 2), "a hull of the surviving corners is formed")

    def pts(h):
        return h[0][h[1]] if h[1] is not None else None
    e0 = pts(hulls[0])
    e1 = pts(hulls[1]) if len(hulls) > 1 else None
    ze, zc = raw(o.z_edge), raw(o.z_ecorr)
    if e0 is None:
        ctx.check(np.bool_(ze.size == 0), "no boundary when no hull exists")
    else:
        ctx.check(eq_arr(ze, e0), "the boundary is the hull of the candidates in hull order")
    want = e0 if e1 is None else e1
    if want is None:
        ctx.check(np.bool_(zc.size == 0), "no reduced boundary when no hull exists")
    else:
        ctx.check(eq_arr(zc, want),
                  "the reduced boundary is the second hull, or the first when there is none")
    ctx.reach()


def many(ctx, nf):
    """Every corner of a box with many sides; one pair of features may be correlated."""
    n = 3
    x = np.array([[(-1.0) ** (i + j) * (1 + (i * 5 + j * 3) % 7) for j in range(nf)]
                  for i in range(n)])
    a = np.array([[2.0 ** j / 64 for j in range(nf)], [(-1.0) ** j * 3.0 ** (j % 8) / 32
                                                       for j in range(nf)]])
    u, v = 0, nf - 1
    r, p = ctx.real("rho", -1, 1), ctx.real("pval", 0, 1)

    def column(c):
        c = np.asarray(raw(c), dtype=float)
        return next(j for j in range(nf) if np.array_equal(c, x[:, j]))

    def pearsonr(c, d, *q, **k):
        return (r, p) if {column(c), column(d)} == {u, v} else (0.0, 1.0)
    hulls = []

    def ConvexHull(points, *q, **k):
        P = np.asarray(raw(points), dtype=float)
        hulls.append(P)
        return types.SimpleNamespace(vertices=np.arange(len(P)))
    ctx.stub(scipy.stats.pearsonr, pearsonr)
    ctx.stub(scipy.spatial.ConvexHull, ConvexHull)
    t = 0.5
    run(const(ctx, x), const(ctx, a), 0.05, t)
    pos, neg = bool(And(p <= 0.05, r > t)), bool(And(p <= 0.05, r < -t))
    lo, hi = x.min(axis=0), x.max(axis=0)
    bits = np.array(list(itertools.product((0, 1), repeat=nf)), dtype=bool)
    same = bits[:, u] == bits[:, v]
    every = np.where(bits, hi, lo) @ a.T
    for what, got, want in (("candidates", 0, every),
                            ("surviving corners", 1, every[~(pos & ~same) & ~(neg & same)])):
        P = hulls[got] if len(hulls) > got else np.zeros((0, 2))
        ok = P.shape == want.shape
        if ok:
            P, want = (w[np.lexsort(np.round(w, 6).T)] for w in (P, want))
            ok = bool(np.allclose(P, want))
        ctx.check(np.bool_(ok), f"with many features the {what} are exactly the corners of the box")
    ctx.reach()


HARNESSES = [
    H(many, [dict(nf=11)], [dict(nf=12)]),
    H(corners, [dict(n=2, nf=2, sym="x"), dict(n=3, nf=2, sym="x"), dict(n=3, nf=3, sym="a"),
                dict(n=2, nf=3, sym="x")],
      [dict(n=4, nf=3, sym="x"), dict(n=3, nf=4, sym="a")]),
]
BOUNDS = ("2 to 4 instances, 2 to 4 features with values of both signs, arbitrary correlations; 11 "
          "to 12 features of fixed values with one correlated pair")
OUTSIDE = "the hull computation itself and the correlation test (arbitrary results)"
EXPLANATION = ("CloisterStage runs with arbitrary correlations and p-values; the corners given to "
               "the projection and the hulls must be exactly the combinations of feature extremes "
               "the correlations allow, projected, and the unpruned boundary must be the hull of all"
               " corners.")
ASSUMPTIONS = [("pearsonr returns any coefficients; ConvexHull returns some of the points it is given")]
