import scipy.linalg
import scipy.optimize
import scipy.spatial.distance
import scipy.stats

from sx.run import H
from sx.spec import *

PROPERTY = "C16"
LEVEL = "model_checking"


def opts(**k):
    from instancespace.data.options import PilotOptions
    return PilotOptions.default(**k)


def run(x, y, nf, o):
    from instancespace.stages.pilot import PilotInput, PilotStage
    return PilotStage._run(PilotInput(x, y, names("f", nf), o))


def dot(a, b):
    """Product of two matrices given as object arrays."""
    n, m, k = len(a), len(b[0]), len(b)
    o = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            o[i, j] = total([a[i][t] * b[t][j] for t in range(k)])
    return o


def col(ctx, name, n, lo, hi):
    return vector(ctx, name, n, lo, hi)


def equations(ctx, o, x, y, nf, na, what, fits):
    n = x.shape[0]
    X, Y = raw(x), raw(y)
    A, Z, B, C = raw(o.a), raw(o.z), raw(o.b), raw(o.c)
    ctx.check(np.bool_(A.shape == (2, nf) and Z.shape == (n, 2) and B.shape == (nf, 2)
                       and C.shape == (2, na)), f"{what}: matrices have the right shapes")
    if not (A.shape == (2, nf) and Z.shape == (n, 2) and B.shape == (nf, 2) and
            C.shape == (2, na)):
        return
    ctx.check(eq_arr(Z, dot(X, A.T)), f"{what}: coordinates are the projected features")
    xb = np.concatenate([X, Y], axis=1)
    xh = dot(Z, np.concatenate([B.T, C], axis=1))
    ctx.check(eq(raw(o.error).ravel()[0] if isinstance(o.error, np.ndarray) else o.error,
                 total([(xb[i, j] - xh[i, j]) * (xb[i, j] - xh[i, j]) for i in range(n)
                        for j in range(nf + na)])),
              f"{what}: error is that of the returned matrices")
    R = raw(o.r2)
    ctx.check(np.bool_(R.shape == (nf + na,)), f"{what}: one fit per feature and algorithm")
    if R.shape == (nf + na,):
        for j in range(nf + na):
            c = fits(xb[:, j], xh[:, j])
            if c is not None:
                ctx.check(And(le(R[j], c * c + 0.002), ge(R[j], c * c - 0.002)),
                          f"{what}: fit is the squared correlation with the reconstruction")
    s = o.pilot_summary
    ctx.check(np.bool_(list(s.columns)[1:] == names("f", nf) and s.shape[0] == 2),
              f"{what}: summary names the features")
    sv = s.to_numpy()
    ctx.check(And(*[eq(sv[r, j + 1], A[r, j]) for r in range(2) for j in range(nf)]),
              f"{what}: summary holds the projection")


def correlations(ctx):
    """np.corrcoef gives an arbitrary number per pair of columns (the same for the same pair)."""
    import z3
    from sx.values import to_sf
    memo = {}

    def key(v):
        return tuple(z3.simplify(to_sf(e).v, som=True).sexpr() for e in v)

    def pair(u, v):
        k = frozenset([key(u), key(v)])
        if len(k) == 1:
            return np.float64(1)
        if k not in memo:
            memo[k] = ctx.real(f"corr{len(memo)}", -1, 1)
        return memo[k]

    def corrcoef(x, y=None, rowvar=True, **k):
        if conc():
            with np.errstate(all="ignore"):
                return np.corrcoef(x, y, rowvar=rowvar, **k)
        rows = [np.atleast_2d(raw(v)) for v in (x, y) if v is not None]
        X = np.concatenate([v if rowvar or raw(x).ndim == 1 else v.T for v in rows])
        o = np.empty((len(X), len(X)), dtype=object)
        for i in range(len(X)):
            for j in range(len(X)):
                o[i, j] = pair(X[i], X[j])
        return finish(ctx, o, "f")

    def fits(u, v):
        if not conc():
            return pair(u, v)
        u, v = np.asarray(u, dtype=float), np.asarray(v, dtype=float)
        if u.std() < 1e-6 or v.std() < 1e-6:
            return None
        return np.corrcoef(u, v)[0, 1]
    ctx.stub(np.corrcoef, corrcoef)
    return fits


def distances(ctx):
    """pdist returns one fresh vector per matrix; rec remembers which matrix it belongs to."""
    rec = []

    def pdist(M, *a, **k):
        m = len(raw(M))
        d = vector(ctx, f"dist{len(rec)}", m * (m - 1) // 2, 0, 100)
        rec.append((d if conc() else raw(d).copy(), raw(M).copy()))
        return d

    ctx.stub(scipy.spatial.distance.pdist, pdist)
    return rec


def owner(rec, d):
    d = raw(d)
    for v, M in rec:
        if conc():
            if np.shares_memory(v, d):
                return M
        elif v.shape == d.shape and all(_is(a, b) for a, b in zip(v, d)):
            return M
    return None


def _is(a, b):
    from sx.values import Sym
    if isinstance(a, Sym) or isinstance(b, Sym):
        return isinstance(a, Sym) and isinstance(b, Sym) and a.v.eq(b.v)
    return a == b


def numerical(ctx, n, nf, na, tries, given=False, sym="solution", unscored=False):
    fits = correlations(ctx)
    x, y = fixed(ctx, n, nf, na) if sym == "solution" else \
        (matrix(ctx, "x", n, nf, -5, 5), matrix(ctx, "y", n, na, -5, 5))
    m = nf + na
    size = 2 * m + 2 * nf
    rec = distances(ctx)
    sols, scores, starts = [], [], []

    def fmin_bfgs(f, x0, fprime=None, args=(), **k):
        t = len(sols)
        starts.append(raw(x0).copy())
        s = col(ctx, f"solution{t}", size, -3, 3) if sym != "data" else \
            const(ctx, np.array([((7 * i + 3 * t) % 5 - 2.0) / 3 for i in range(size)]))
        fv = ctx.real(f"optimum{t}", 0, 50)
        sols.append((raw(s).copy(), fv))
        return s, fv, 0, 0, 0, 0, 0

    def pearsonr(a, b, *r, **k):
        Ma, Mb = owner(rec, a), owner(rec, b)
        sc = ctx.real(f"score{len(scores)}", -1, 1)
        # coinciding points have no correlation
        if unscored and ctx.choose(f"collapsed{len(scores)}", [False, True]):
            sc = np.float64("nan")
        scores.append((sc, Ma, Mb))
        return sc, 0.0
    ctx.stub(scipy.optimize.fmin_bfgs, fmin_bfgs)
    ctx.stub(scipy.stats.pearsonr, pearsonr)
    x0 = matrix(ctx, "start", size, tries, -1, 1) if given else None
    o = run(x, y, nf, opts(n_tries=tries, analytic=False, x0=x0))
    ctx.check(np.bool_(len(sols) == tries), "one optimisation per trial")
    if len(sols) != tries:
        return
    if given:
        S = raw(x0)
        for t in range(tries):
            ctx.check(eq_arr(starts[t], S[:, t]), "supplied starting points are used")
    A = [np.asarray(s[:2 * nf]).reshape(2, nf) for s, _ in sols]
    sc = []
    for t in range(tries):
        mine = []
        for v, Ma, Mb in scores:
            if Ma is None or Mb is None:
                raise AssertionError("score of something else")
            mine.append((v, Ma, Mb))
        ok = len(mine) == tries and {mine[t][1].shape[1], mine[t][2].shape[1]} == {nf, 2} \
            or nf == 2
        ctx.check(np.bool_(len(mine) == tries and ok), "one topology score per trial")
        zt = dot(raw(x), A[t].T)
        a, b = mine[t][1], mine[t][2]
        ctx.check(Or(And(eq_arr(a, raw(x)), eq_arr(b, zt)),
                     And(eq_arr(b, raw(x)), eq_arr(a, zt))),
                  "topology score compares feature distances with the trial's distances")
        sc.append(mine[t][0])
        ctx.check(isnan(raw(o.perf)[t]) if bool(isnan(sc[t])) else eq(raw(o.perf)[t], sc[t]),
                  "reported topology score of each trial")
        ctx.check(eq(raw(o.eoptim)[t], sols[t][1]), "reported optimum of each trial")
        for i in range(size):
            ctx.check(eq(raw(o.alpha)[i, t], sols[t][0][i]), "reported solution of each trial")
    oa, oz = raw(o.a), raw(o.b)
    some = [v for v in sc if not bool(isnan(v))]
    best = [t for t in range(tries) if not some or not bool(isnan(sc[t]))]
    ctx.check(Or(*[And(ge(sc[t], mx(some)) if some else np.bool_(True), eq_arr(oa, A[t]),
                       eq_arr(np.concatenate([oz, raw(o.c).T]),
                              np.asarray(sols[t][0][2 * nf:]).reshape(m, 2)))
                   for t in best]),
              "the trial with the best topology score is returned")
    equations(ctx, o, x, y, nf, na, "numerical", fits)
    ctx.reach()


def fixed(ctx, n, nf, na):
    x = np.array([[(3 * i + 5 * j * j + i * i * (j + 1)) % 7 - 2.0 for j in range(nf)]
                  for i in range(n)])
    y = np.array([[(2 * i * i + 3 * k + i) % 5 - 1.0 for k in range(na)] for i in range(n)])
    return const(ctx, x), const(ctx, y)


def supplied(ctx, n, nf, na):
    fits = correlations(ctx)
    x, y = fixed(ctx, n, nf, na)
    m = nf + na
    size = 2 * m + 2 * nf
    distances(ctx)

    def never(*a, **k):
        raise AssertionError("no optimisation expected")
    ctx.stub(scipy.optimize.fmin_bfgs, never)
    al = matrix(ctx, "solution", size, 1, -3, 3)
    S = raw(al.copy())[:, 0]
    o = run(x, y, nf, opts(n_tries=2, analytic=False, alpha=al))
    ctx.check(eq_arr(o.a, np.asarray(S[:2 * nf]).reshape(2, nf)),
              "a supplied solution gives the projection")
    ctx.check(eq_arr(np.concatenate([raw(o.b), raw(o.c).T]),
                     np.asarray(S[2 * nf:]).reshape(m, 2)),
              "a supplied solution gives the reconstruction")
    equations(ctx, o, x, y, nf, na, "supplied", fits)
    ctx.reach()


def objective(ctx, n, nf, na):
    """The function handed to the optimiser is the mean squared reconstruction error."""
    x, y = matrix(ctx, "x", n, nf, -5, 5), matrix(ctx, "y", n, na, -5, 5)
    m = nf + na
    size = 2 * m + 2 * nf
    distances(ctx)
    probe = col(ctx, "probe", size, -3, 3)
    got = []

    def fmin_bfgs(f, x0, fprime=None, args=(), **k):
        got.append(f(probe, *args))
        return const(ctx, np.zeros(size)), 0.0, 0, 0, 0, 0, 0
    ctx.stub(scipy.optimize.fmin_bfgs, fmin_bfgs)
    ctx.stub(scipy.stats.pearsonr, lambda *a, **k: (ctx.real("score", -1, 1), 0.0))
    correlations(ctx)
    run(x, y, nf, opts(n_tries=1, analytic=False))
    P = raw(probe)
    A, B = np.asarray(P[:2 * nf]).reshape(2, nf), np.asarray(P[2 * nf:]).reshape(m, 2)
    xb = np.concatenate([raw(x), raw(y)], axis=1)
    xh = dot(dot(raw(x), A.T), B.T)
    ctx.check(np.bool_(len(got) == 1), "one optimisation")
    ctx.check(eq(got[0] * (n * m), total([(xb[i, j] - xh[i, j]) * (xb[i, j] - xh[i, j])
                                          for i in range(n) for j in range(m)])),
              "the objective is the mean squared reconstruction error")
    ctx.reach()


def analytic(ctx, n, nf, na):
    fits = correlations(ctx)
    x, y = fixed(ctx, n, nf, na)
    m = nf + na
    distances(ctx)
    ev, vec = [], []

    def eig(M, *a, **k):
        xb = np.concatenate([raw(x), raw(y)], axis=1)
        ctx.check(eq_arr(raw(M), dot(xb.T, xb)),
                  "eigenvectors are those of the data's scatter matrix")
        d = vector(ctx, "eigenvalue", m, 0, 100)
        v = matrix(ctx, "eigenvector", m, m, -1, 1)
        ev.append(raw(d).copy())
        vec.append(raw(v).copy())
        return d, v
    ctx.stub(scipy.linalg.eig, eig)
    ctx.stub(scipy.linalg.eigh, eig)
    ctx.stub(np.linalg.eig, eig)
    ctx.stub(np.linalg.eigh, eig)
    o = run(x, y, nf, opts(analytic=True))
    ctx.check(np.bool_(len(ev) == 1), "one eigendecomposition")
    BC = np.concatenate([raw(o.b), raw(o.c).T])

    def same(c, k):
        return Or(And(*[eq(BC[i, c], vec[0][i, k]) for i in range(m)]),
                  And(*[eq(BC[i, c], -vec[0][i, k]) for i in range(m)]))
    ctx.check(Or(*[And(same(0, p), same(1, q),
                       *[ev[0][p] >= ev[0][k] for k in range(m) if k != p],
                       *[ev[0][q] >= ev[0][k] for k in range(m) if k not in (p, q)])
                   for p in range(m) for q in range(m) if p != q]),
              "reconstruction columns are the two leading eigenvectors")
    # least squares: A (X'X) = V' Xbar' X
    X = raw(x)
    xb = np.concatenate([X, raw(y)], axis=1)
    ctx.check(eq_arr(dot(raw(o.a), dot(X.T, X)), dot(BC.T, dot(xb.T, X))),
              "the projection is the least-squares one")
    equations(ctx, o, x, y, nf, na, "analytic", fits)
    ctx.reach()


HARNESSES = [
    H(numerical, [dict(n=3, nf=2, na=1, tries=2), dict(n=3, nf=3, na=2, tries=3),
                  dict(n=3, nf=2, na=1, tries=2, sym="data"),
                  dict(n=3, nf=3, na=1, tries=3, unscored=True),
                  dict(n=3, nf=3, na=1, tries=1, given=True),
                  dict(n=3, nf=3, na=1, tries=2, given=True),
                  dict(n=3, nf=3, na=1, tries=2, sym="both")],
      [dict(n=5, nf=4, na=3, tries=4), dict(n=4, nf=3, na=2, tries=2, sym="both"),
       dict(n=3, nf=3, na=1, tries=5, given=True),
       dict(n=3, nf=2, na=2, tries=3, sym="data")]),
    H(supplied, [dict(n=3, nf=2, na=1), dict(n=4, nf=3, na=2)],
      [dict(n=6, nf=5, na=3)]),
    H(objective, [dict(n=2, nf=2, na=1)], [dict(n=3, nf=2, na=2), dict(n=3, nf=3, na=1)]),
    H(analytic, [dict(n=4, nf=2, na=1), dict(n=4, nf=3, na=1)],
      [dict(n=5, nf=3, na=2), dict(n=6, nf=4, na=1)]),
]
BOUNDS = ("3 to 4 instances, 2 to 3 features, 1 to 2 algorithms, 1 to 3 trials, arbitrary "
          "optimiser results and scores")
OUTSIDE = "the optimiser's and the eigensolver's own results (arbitrary values)"
EXPLANATION = ("PilotStage runs with arbitrary optimiser results and scores; the outputs must "
               "satisfy the equations that define them (projection, reconstruction, errors, "
               "correlation) and belong to the trial with the best score; the objective handed to "
               "the optimiser must be the reconstruction error.")
ASSUMPTIONS = [("optimiser and eigensolver return any finite values of the right shape; corrcoef and "
               "pdist are functions of their arguments")]
