"""Environment of PYTHIA: learners and searches that return arbitrary results."""
import types

import sklearn.metrics
import sklearn.model_selection
import skopt

from sx.spec import *


def popts(**k):
    from instancespace.data.options import PythiaOptions
    d = dict(cv_folds=2, is_poly_krnl=False, use_weights=False, use_grid_search=True, params=None)
    d.update(k)
    return PythiaOptions(**d)


def run(z, y, yb, best, o, labels=None):
    from instancespace.data.options import ParallelOptions
    from instancespace.stages.pythia import PythiaInput, PythiaStage
    na = yb.shape[1]
    return PythiaStage._run(PythiaInput(z, y, yb, best, labels or names("a", na), o,
                                        ParallelOptions.default()))


def coords(n):
    """Concrete coordinates, no two alike."""
    return np.array([[1.0 + i * i, 3.0 - 2 * i + 0.5 * i * i * i] for i in range(n)])


def _boolvec(ctx, v):
    return v if conc() else finish(ctx, v, "b")


class Env:
    """Replaces the search, cross-validation and scoring functions.

    Every fitted search becomes a record of what it was given; its predictions, probabilities and
    parameters are free variables numbered by the position of its algorithm in `ids` (found from
    the record once the run is over), so here they are numbered by order of fitting."""

    def __init__(self, ctx, n):
        self.ctx, self.n, self.recs = ctx, n, []
        self.bvector = bvector
        ctx.stub(sklearn.model_selection.RandomizedSearchCV, self._random)
        ctx.stub(skopt.BayesSearchCV, self._bayes)
        ctx.stub(sklearn.model_selection.cross_val_predict, self._cvp)
        for f in ("confusion_matrix", "accuracy_score", "precision_score", "recall_score"):
            ctx.stub(getattr(sklearn.metrics, f), getattr(self, "_" + f))

    def _random(self, estimator, param_distributions, **k):
        return self._search("grid", estimator, param_distributions, k)

    def _bayes(self, estimator, search_spaces, **k):
        return self._search("bayes", estimator, search_spaces, k)

    def _search(self, kind, estimator, space, k):
        out = types.SimpleNamespace()

        def fit(X, y=None, sample_weight=None, **fp):
            i = len(self.recs)
            c, n = self.ctx, self.n
            for key in ("C", "gamma"):
                if np.ndim(space[key]) != 1:
                    raise TypeError("parameter grid needs a list of values")
            pick = c.choose(f"search_pick[{i}]", [0, -1]) if len(space["C"]) > 1 else 0
            r = types.SimpleNamespace(
                kind=kind, est=estimator, space=space, cv=k.get("cv"), X=X, y=y, w=sample_weight,
                C=space["C"][pick], gamma=space["gamma"][pick],
                yhat=self.bvector(c, f"predicted[{i}]", n), ysub=self.bvector(c, f"cv_predicted[{i}]", n),
                phat=vector(c, f"prob[{i}]", n, 0, 1), psub=vector(c, f"cv_prob[{i}]", n, 0, 1))
            m = types.SimpleNamespace(rec=r, predict=lambda Z: self._use(r, Z, r.yhat),
                                      predict_proba=lambda Z: self._use(r, Z, self._two(r.phat)))
            r.model = m
            out.best_estimator_, out.best_params_ = m, {"C": r.C, "gamma": r.gamma}
            out.predict, out.predict_proba = m.predict, m.predict_proba
            self.recs.append(r)
            return out
        out.fit = fit
        return out

    def _two(self, p):
        o = np.empty((self.n, 2), dtype=object)
        for i in range(self.n):
            o[i, 0], o[i, 1] = 1.0 - raw(p)[i], raw(p)[i]
        return finish(self.ctx, o, "f")

    def _use(self, r, Z, res):
        self.ctx.check(eq_arr(Z, r.X), "a model predicts for the coordinates it was trained on")
        return res.copy()

    def _cvp(self, model, X, y, cv=None, method="predict", **k):
        r = model.rec
        self.ctx.check(And(eq_arr(X, r.X), eq_arr(np.asarray(y), np.asarray(r.y)),
                           np.bool_(cv is r.cv)),
                       "cross-validation uses the model's own data and folds")
        return r.ysub.copy() if method == "predict" else self._two(r.psub)

    # scoring: the definitions, for labels that are booleans ------------------------------
    def counts(self, t, p):
        t, p = list(raw(t)), list(raw(p))
        tt = [(v == 1) if not isinstance(v, (bool, np.bool_)) else np.bool_(v) for v in t]
        pp = [(v == 1) if not isinstance(v, (bool, np.bool_)) else np.bool_(v) for v in p]
        tn = count([And(Not(a), Not(b)) for a, b in zip(tt, pp)])
        fp = count([And(Not(a), b) for a, b in zip(tt, pp)])
        fn = count([And(a, Not(b)) for a, b in zip(tt, pp)])
        tp = count([And(a, b) for a, b in zip(tt, pp)])
        return tn, fp, fn, tp

    def _confusion_matrix(self, t, p, **k):
        if conc():
            return sklearn.metrics.confusion_matrix(t, p, **k)
        tn, fp, fn, tp = self.counts(t, p)
        o = np.empty((2, 2), dtype=object)
        o[0, 0], o[0, 1], o[1, 0], o[1, 1] = tn, fp, fn, tp
        return finish(self.ctx, o, "i")

    def _accuracy_score(self, t, p, **k):
        tn, fp, fn, tp = self.counts(t, p)
        return (tn + tp) * (1.0 / len(raw(t)))

    def _precision_score(self, t, p, **k):
        tn, fp, fn, tp = self.counts(t, p)
        return ratio(tp, fp, len(raw(t)))

    def _recall_score(self, t, p, **k):
        tn, fp, fn, tp = self.counts(t, p)
        return ratio(tp, fn, len(raw(t)))


def ratio(a, b, n):
    """a / (a + b), 0 when both are 0, for counts up to n (no nonlinear term)."""
    r = np.float64(0)
    for i in range(1, n + 1):
        for j in range(n + 1 - i):
            c = And(a == i, b == j)
            r = If(c, np.float64(i / (i + j)), r)
    return r


def both_classes(ctx, yb):
    """The learner refuses labels of a single class."""
    Y = raw(yb)
    for j in range(Y.shape[1]):
        ctx.assume(And(Or(*list(Y[:, j])), Not(And(*list(Y[:, j])))))
