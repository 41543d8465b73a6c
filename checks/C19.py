from checks.pythia_common import *
from sx.run import H

PROPERTY = "C19"
LEVEL = "model_checking"


def spread(ctx):
    """Deviations of the performances play no part here (C18 looks at them)."""
    def nanstd(a, axis=None, **k):
        if conc():
            return np.nanstd(a, axis=axis, **k)
        m = raw(a).shape
        return ctx.real(ctx.fresh_id("std"), 0, 99) if axis is None else \
            vector(ctx, ctx.fresh_id("std"), m[1 - axis], 0, 99)
    return nanstd


def scores(env, t, p, n):
    tn, fp, fn, tp = env.counts(t, p)
    return [(tn + tp) * (1.0 / n), ratio(tp, fp, n), ratio(tp, fn, n)]


def near(a, b):
    return And(le(a, b + 0.0011), ge(a, b - 0.0011))


def training(ctx, n, na, poly=False, grid=True, given=False, weights=False, nan=False, zsym=False,
             large=False):
    """One run; afterwards every record is matched to its algorithm through the returned model."""
    from instancespace.stages import pythia
    if large:      # these few instances count as many
        old = getattr(pythia, "LARGE_NUM_INSTANCE", None)
        pythia.LARGE_NUM_INSTANCE = 1
        try:
            return training(ctx, n, na, poly, grid, given, weights, nan, zsym)
        finally:
            pythia.LARGE_NUM_INSTANCE = old
    env = Env(ctx, n)
    ctx.stub(np.nanstd, spread(ctx))
    z = matrix(ctx, "z", n, 2, -8, 8) if zsym else const(ctx, coords(n))
    y = matrix(ctx, "y", n, na, -9, 9) if weights else \
        const(ctx, np.array([[1.0 + 3 * i + 7 * j * j + i * j for j in range(na)]
                             for i in range(n)]))
    if nan:
        spots = [(0, 0), (n - 1, na - 1)] + ([(1, 0)] if nan == 2 else [])
        for c in spots[:1 if nan == 1 else None]:
            y[c] = np.nan
    yb = bmatrix(ctx, "good", n, na)
    both_classes(ctx, yb)
    best = vector(ctx, "best", n, 0, 9)
    par = None
    if given:
        par = np.array([[0.5 + j, 10.0 + 2 * j] for j in range(na)])
        if given == "wrong":
            par = par[:, :1]
    if zsym:
        Z = raw(z)
        for j in range(2):
            ctx.assume(Z[1, j] - Z[0, j] >= 1)
    if weights:
        vals = [v for v in raw(y).ravel() if not (isinstance(v, float) and np.isnan(v))]
        m = total(vals) * (1.0 / len(vals))
        W = np.empty((n, na), dtype=object)
        for i in range(n):
            for j in range(na):
                v = raw(y)[i, j]
                W[i, j] = None if isinstance(v, float) and np.isnan(v) else absv(v - m)
        known = [w for w in W.ravel() if w is not None]
        # values other than the average are told apart from it, also in floating point
        ctx.assume(And(*[Or(w >= 0.125, w == 0) for w in known]))
        ctx.assume(Or(*[w >= 0.125 for w in known]))
        least, most = None, mx(known)
        for w in known:
            w = If(w >= 0.125, w, 1000.0)
            least = w if least is None else If(w < least, w, least)
        want = np.empty((n, na), dtype=object)
        for i in range(n):
            for j in range(na):
                want[i, j] = most if W[i, j] is None else If(W[i, j] >= 0.125, W[i, j], least)
    y0, z0, yb0, b0 = raw(y).copy(), raw(z).copy(), raw(yb).copy(), raw(best).copy()
    o = run(z, y, yb, best, popts(is_poly_krnl=poly, use_grid_search=grid, params=par,
                                  use_weights=weights))
    ctx.check(And(eq_arr(y, y0), eq_arr(z, z0), eq_arr(yb, yb0), eq_arr(best, b0)),
              "the caller's data are unchanged")
    ok = len(o.svm) == na and all(hasattr(m, "rec") for m in o.svm)
    ctx.check(np.bool_(ok), "one trained model per algorithm")
    if not ok:
        return
    Y = raw(yb)
    MU, SG = list(o.mu), list(o.sigma)
    Z = raw(z)
    ctx.check(np.bool_(len(MU) == 2 and len(SG) == 2), "one mean and deviation per coordinate")
    for c in range(2):
        ctx.check(eq(MU[c] * n, total(list(Z[:, c]))), "reported means are those of the coordinates")
        ctx.check(And(ge(SG[c], 0), eq(SG[c] * SG[c] * (n - 1),
                                       total([(v - MU[c]) * (v - MU[c]) for v in Z[:, c]]))),
                  "reported deviations are those of the coordinates")
    late = []
    for i, m in enumerate(o.svm):
        r = m.rec
        X = raw(r.X)
        ctx.check(np.bool_(X.shape == (n, 2)) and And(*[eq(X[a, c] * SG[c] + MU[c], Z[a, c])
                                                        for a in range(n) for c in range(2)]),
                  "every model is trained on the standardised coordinates")
        ctx.check(eq_arr(np.asarray(r.y).ravel(), Y[:, i]),
                  "every model is trained on its algorithm's labels")
        ctx.check(np.bool_(r.kind == ("grid" if grid else "bayes")), "the requested search is used")
        ctx.check(np.bool_(r.est.kernel == ("poly" if poly else "rbf")),
                  "the requested kernel is used")
        ctx.check(np.bool_(r.cv is o.cp and o.cp.get_n_splits() == 2),
                  "the requested number of folds is used")
        w = raw(r.w).ravel() if r.w is not None else np.ones(n)
        if weights:
            ctx.check(And(*[eq(a, b) for a, b in zip(w, want[:, i])]),
                      "instance weights are the algorithm's distances from the average")
        else:
            ctx.check(And(*[eq(v, 1.0) for v in w]), "without cost sensitivity all weigh the same")
        if given and given != "wrong":
            ctx.check(np.bool_(list(np.ravel(r.space["C"])) == [par[i, 0]] and
                               list(np.ravel(r.space["gamma"])) == [par[i, 1]]),
                      "supplied parameters are used for their algorithm")
        else:
            lo, hi = 2.0 ** -10, 2.0 ** 4
            ctx.check(np.bool_(all(len(r.space[k]) > 1 and
                                   all(lo <= v <= hi for v in r.space[k])
                                   for k in ("C", "gamma"))), "generated parameters are in range")
        ctx.check(And(eq(o.box_consnt[i], r.C), eq(o.k_scale[i], r.gamma)),
                  "reported parameters are those of the model")
        ctx.check(eq_arr(raw(o.y_hat)[:, i], r.yhat), "predictions are those of the model")
        ctx.check(eq_arr(raw(o.y_sub)[:, i], r.ysub),
                  "cross-validated predictions are those of the model")
        ctx.check(eq_arr(raw(o.pr0_hat)[:, i], r.phat), "probabilities are those of the model")
        ctx.check(eq_arr(raw(o.pr0_sub)[:, i], r.psub),
                  "cross-validated probabilities are those of the model")
        tn, fp, fn, tp = env.counts(Y[:, i], raw(r.ysub))
        ctx.check(And(*[ieq(a, b) for a, b in zip(list(raw(o.cvcmat)[i]), (tn, fp, fn, tp))]),
                  "confusion counts are those of the cross-validation")
        got = [o.accuracy[i], o.precision[i], o.recall[i]]
        own, cv = (scores(env, Y[:, i], raw(v), n) for v in (r.yhat, r.ysub))
        ctx.check(Or(And(*[eq(a, b) for a, b in zip(got, own)]),
                     And(*[eq(a, b) for a, b in zip(got, cv)])),
                  "accuracy, precision and recall are those of one prediction of the model")
        s = o.pythia_summary
        row = s.iloc[i]
        shown = [row[f"CV_model_{k}"] for k in ("accuracy", "precision", "recall")]
        ctx.check(And(np.bool_(row["Algorithms"] == names("a", na)[i]),
                      *[near(a, 100 * b) for a, b in zip(shown, got)],
                      near(row["BoxConstraint"], r.C), near(row["KernelScale"], r.gamma)),
                  "the summary reports each model's own scores and parameters")
        late.append((shown, cv))
    ctx.reach()
    ctx.check(And(*[near(a, 100 * b) for shown, cv in late for a, b in zip(shown, cv)]),
              "scores shown as cross-validated come from cross-validation")


HARNESSES = [
    H(training, [dict(n=3, na=2), dict(n=3, na=1, poly=True, grid=False),
                 dict(n=3, na=2, given=True), dict(n=2, na=2, given=True, grid=False),
                 dict(n=2, na=2, given="wrong"),
                 dict(n=2, na=2, weights=True), dict(n=3, na=1, weights=True, nan=1),
                 dict(n=3, na=1, zsym=True), dict(n=2, na=1, weights=True, poly=True),
                 dict(n=2, na=3, given=True), dict(n=3, na=1, large=True)],
      [dict(n=3, na=2, poly=True), dict(n=4, na=1, grid=False), dict(n=3, na=2, given=True),
       dict(n=3, na=2, weights=True, nan=2), dict(n=3, na=2, weights=True, nan=1),
       dict(n=3, na=1, weights=True), dict(n=2, na=2, weights=True, poly=True),
       dict(n=4, na=1, zsym=True)]),
]
EXPLANATION = """The real stage runs on symbolic goodness labels, performances and coordinates; the
hyper-parameter search, the cross-validated prediction and the learner are replaced by stand-ins
that return arbitrary predictions, probabilities and one of the offered parameter pairs and record
what they were given, and scikit-learn's scores by their definitions. The records are tied to
algorithms through the returned models, so training order does not matter."""
BOUNDS = "2 to 4 instances, 1 to 3 algorithms, every label pattern with both classes."
OUTSIDE = """What the learner does with its data; labels of a single class (the learner refuses
them); larger tables; the random choice of generated parameters; rounding of floating point."""
ASSUMPTIONS = ["performances equal the average exactly or differ from it by 1/8, and not all do (weights)",
               "the first two instances differ by at least 1 in each coordinate (zsym)"]
