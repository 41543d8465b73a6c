"""Repeating a stage gives the same results: every random choice has a fixed seed."""
import dataclasses
import itertools
import random
import time
import types

import pandas as pd
import pygad
import scipy.optimize
import scipy.spatial.distance
import scipy.stats
import sklearn.cluster
import sklearn.metrics
import sklearn.model_selection
import skopt

from checks import C15
from checks import prelim_common as PC
from checks.C10 import isnum, same, snap
from checks.pythia_common import Env, both_classes, coords, popts
from sx.run import H
from sx.spec import *
from sx.values import Sym, SymBool, to_sf

PROPERTY = "C14"
LEVEL = "model_checking"
NOT_RANDOM = ("n_jobs", "verbose", "parallel_processing", "pre_dispatch", "fitness_func",
              "save_solutions", "random_state", "random_seed")


class Chance:
    """Library calls that draw random numbers.

    The results of a library call are arbitrary, but the same whenever it is called on the same
    arguments with the same seed.  Without a seed it draws from the process' own generator, whose
    state is arbitrary when a run begins; a generator made without a seed starts anywhere."""

    def __init__(self, ctx):
        self.ctx, self.memo, self.terms, self.run, self.n = ctx, {}, {}, -1, {}
        self.default_rng, self.RandomState = np.random.default_rng, np.random.RandomState
        s = ctx.stub
        s(np.random.default_rng, lambda seed=None: self.generator(seed))
        s(np.random.RandomState, lambda seed=None: np.random.RandomState(
            self.entropy("RandomState") if seed is None else seed))
        s(random.Random, lambda seed=None: random.Random(
            self.entropy("Random") if seed is None else seed))
        now = itertools.count(1700000000)
        for f in ("time", "time_ns", "perf_counter_ns", "monotonic_ns"):
            s(getattr(time, f), lambda: float(next(now)) if f == "time" else next(now))
        lhs = scipy.stats.qmc.LatinHypercube
        s(lhs, lambda *a, **k: lhs(*a, **self.seeded(k, ("seed", "rng"))))

    def begin(self):
        self.run += 1
        self.n = {}
        state = self.entropy("state of the process' generator")
        np.random.seed(state)
        random.seed(state)

    def entropy(self, what):
        k = self.count(what)
        return self.ctx.choose(f"{what} {self.run}.{k}", [11, 12])

    def count(self, what):
        self.n[what] = self.n.get(what, -1) + 1
        return self.n[what]

    def generator(self, seed):
        if isinstance(seed, np.random.Generator):
            return seed
        return np.random.default_rng(self.entropy("generator") if seed is None else seed)

    def seeded(self, k, names_):
        k = dict(k)
        for nm in names_:
            if k.get(nm) is not None:
                return k
        k[names_[0]] = self.generator(None)
        return k

    def draw(self, rs):
        """The seed a library makes of its random_state argument."""
        if rs is None:
            return int(np.random.randint(2 ** 31))
        if isinstance(rs, (np.random.Generator,)):
            return int(rs.integers(2 ** 31))
        if isinstance(rs, np.random.RandomState):
            return int(rs.randint(2 ** 31))
        return int(rs)

    def dig(self, v):
        """What a library function can know of an argument."""
        if isinstance(v, SymBool):
            k = ("b", v.e.sexpr() if hasattr(v.e, "sexpr") else str(v.e))
            self.terms[k] = v
            return k
        if isinstance(v, Sym):
            f = to_sf(v)
            k = ("f", f.v.sexpr() if hasattr(f.v, "sexpr") else str(f.v), str(f.nan))
            self.terms[k] = f
            return k
        if isinstance(v, (bool, np.bool_)):
            return float(v)
        if isinstance(v, (int, float, np.number)):
            return float(v) if v == v else "nan"
        if isinstance(v, np.ndarray):
            return (v.shape, tuple(self.dig(e) for e in np.ravel(raw(v))))
        if isinstance(v, (pd.Series, pd.DataFrame)):
            return self.dig(v.to_numpy())
        if isinstance(v, (list, tuple)):
            return tuple(self.dig(e) for e in v)
        if isinstance(v, dict):
            return tuple((k, self.dig(e)) for k, e in sorted(v.items())
                         if k not in NOT_RANDOM)
        if v is None or isinstance(v, str):
            return v
        if isinstance(v, types.SimpleNamespace):
            return getattr(v, "key", "?")
        if type(v).__module__.startswith("sklearn"):
            p = dict(vars(v))
            out = [type(v).__name__, self.dig(p)]
            if "random_state" in p and (p["random_state"] is not None or p.get("shuffle", True)):
                out.append(self.draw(p["random_state"]))
            return tuple(out)
        return type(v).__name__

    def result(self, kind, key, make):
        """The result of a library call on these arguments: make(name) when it is a new one."""
        i = self.count(kind)
        key = (kind, key)
        if key not in self.memo:
            for other in [o for o in self.memo if o[0] == kind]:
                if self.surely(key, other):
                    return self.memo[other]
            self.memo[key] = make(f"{kind} {self.run}.{i}")
        return self.memo[key]

    def surely(self, a, b):
        """Arguments written differently may be equal all the same."""
        if a == b:
            return True
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) == len(b) and a[:1] == b[:1] and a[:1] in (("f",), ("b",)):
                return self.entailed(a, b)
            return len(a) == len(b) and all(self.surely(x, y) for x, y in zip(a, b))
        s, c = (a, b) if isinstance(a, tuple) else (b, a)
        if isinstance(s, tuple) and s[:1] in (("f",), ("b",)) and isinstance(c, float):
            return self.entailed(s, c)
        return False

    def entailed(self, a, b):
        if conc():
            return False
        x, y = [self.terms[v] if isinstance(v, tuple) else v for v in (a, b)]
        f = Iff(x, y if isinstance(y, SymBool) else np.bool_(y)) if a[0] == "b" else \
            eq(x, y if isinstance(y, Sym) else np.float64(y))
        return self.ctx.decided(f.e) is True if isinstance(f, SymBool) else bool(f)


def close(a, b):
    """Equal up to rounding (the summary's numbers are rounded)."""
    if isinstance(a, pd.DataFrame):
        if list(a.columns) != list(b.columns) or a.shape != b.shape:
            return np.bool_(False)
        return And(*[close(x, y) for x, y in zip(a.to_numpy().ravel(), b.to_numpy().ravel())])
    if not isnum(a) or not isnum(b):
        return np.bool_(type(a) is type(b) and bool(a == b))
    return Or(And(isnan(a), isnan(b)), And(le(a - b, 0.002), le(b - a, 0.002)))


def equal(a, b):
    if isinstance(a, types.SimpleNamespace) or isinstance(b, types.SimpleNamespace):
        return np.bool_(True)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return And(np.bool_(len(a) == len(b)), *[equal(x, y) for x, y in zip(a, b)])
    if type(a) is type(b) and type(a).__module__.startswith("sklearn"):
        return np.bool_(repr(a) == repr(b))
    return same(snap(a), snap(b))


def twice(ctx, ch, stage, go):
    """go(run) of the real stage; the results of two runs on the same data are the same."""
    outs = []
    for r in range(2):
        ch.begin()
        o = go(r)
        outs.append({f: snapshot(getattr(o, f)) for f in o._fields})
    for f in outs[0]:
        same_ = close if f == "pythia_summary" else equal
        ctx.check(same_(outs[0][f], outs[1][f]), f"{stage} repeats its {f}")
    ctx.reach()


def snapshot(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, (list, tuple)):
        return [snapshot(e) for e in v]
    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        return [snapshot(getattr(v, f.name)) for f in dataclasses.fields(v)]
    return v if dataclasses.is_dataclass(v) or not hasattr(v, "copy") else v.copy()


def fraction(ctx, n):
    ch = Chance(ctx)
    subsets = [list(c) for m in range(1, n) for c in itertools.combinations(range(n), m)]

    def split(*arrays, test_size=None, train_size=None, random_state=None, shuffle=True, **k):
        key = (ch.dig(arrays), ch.dig(test_size), ch.dig(train_size),
               ch.draw(random_state) if shuffle else None)
        chosen = ch.result("split", key, lambda nm: ctx.choose(nm, subsets))
        out = []
        for a in arrays:
            out += [a[np.array([i for i in range(n) if i not in chosen])], a[np.array(chosen)]]
        return out
    ctx.stub(sklearn.model_selection.train_test_split, split)
    x, y = matrix(ctx, "x", n, 2, -9, 9), matrix(ctx, "y", n, 2, 1, 9)
    eps = ctx.real("eps", 0, 9)
    twice(ctx, ch, "PRELIM", lambda r: PC.run(
        x.copy(), y.copy(), PC.popts(epsilon=eps), PC.sopts(small_scale_flag=True, small_scale=0.5),
        s=PC.labels(n, "s")))


def normalising(ctx, n, maxp):
    """PRELIM with bounding, normalisation and the density filter."""
    ch = Chance(ctx)
    x, y = matrix(ctx, "x", n, 1, -9, 9), matrix(ctx, "y", n, 1, 1, 9)
    eps, dist = ctx.real("eps", 0, 9), ctx.real("distance", 0.25, 4)
    twice(ctx, ch, "PRELIM", lambda r: PC.run(
        x.copy(), y.copy(), PC.popts(maxp, True, eps, bound=True),
        PC.sopts(density_flag=True, min_distance=dist), s=PC.labels(n, "s")))


def vec(ctx, xs):
    o = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        o[i] = x
    return finish(ctx, o, "f")


def sifting(ctx, n, nf, na, k, parallel=False):
    from instancespace.data.options import ParallelOptions
    from instancespace.stages.pilot import PilotStage
    from instancespace.stages.sifted import SiftedInput, SiftedStage
    ch = Chance(ctx)
    d = C15.rows(n, nf, na)
    C15.correlations(ctx, d, nf, na, lambda j, a: (0.9, 0.001))

    def KMeans(n_clusters=8, random_state=None, **kw):
        def fit_predict(xt, *a, **q):
            m = len(raw(xt))
            key = (ch.dig(xt), n_clusters, ch.dig(kw), ch.draw(random_state))
            base = np.arange(m) % n_clusters
            swap = ch.result("k-means", key, lambda nm: ctx.bool(nm))
            return base[::-1].copy() if bool(swap) else base
        me = types.SimpleNamespace(fit_predict=fit_predict)

        def fit(xt, *a, **q):
            me.labels_ = fit_predict(xt)
            return me
        me.fit = fit
        return me
    ctx.stub(sklearn.cluster.KMeans, KMeans)

    def silhouette(X, labels, *a, metric="euclidean", sample_size=None, random_state=None, **q):
        key = (ch.dig(X), ch.dig(labels), metric,
               None if sample_size is None else ch.draw(random_state))
        return ch.result("silhouette", key, lambda nm: ctx.real(nm, -1, 1))
    ctx.stub(sklearn.metrics.silhouette_score, silhouette)

    def cross_val_score(est, z, target, *a, cv=None, **q):
        key = (ch.dig(est), ch.dig(z), ch.dig(target), ch.dig(cv), ch.dig(q))
        return vec(ctx, [-ch.result("error", key, lambda nm: ctx.real(nm, 0, 1))])
    ctx.stub(sklearn.model_selection.cross_val_score, cross_val_score)
    ctx.stub(PilotStage.pilot, lambda x, *a, **q: types.SimpleNamespace(z=x))

    def GA(**kw):
        me = types.SimpleNamespace()
        cands = []
        key = (ch.dig(kw), ch.draw(kw.get("random_seed")))

        def go():
            g = kw["num_genes"]
            for c in range(2):
                sol = ch.result("candidate", (key, c), lambda nm: [
                    ctx.choose(f"{nm} gene {i}", [0, 1] if i == 0 or c else [1]) for i in range(g)])
                sol = np.array(sol)
                cands.append((sol, kw["fitness_func"](me, sol, c)))

        def best(*a, **q):
            b = 1 if bool(cands[1][1] > cands[0][1]) else 0
            return cands[b][0], cands[b][1], b
        me.run, me.best_solution = go, best
        return me
    ctx.stub(pygad.GA, GA)

    def go(r):
        par = ParallelOptions(flag=bool(parallel and r), n_cores=2 + 5 * r)
        return SiftedStage._run(SiftedInput(
            **d, feat_labels=names("f", nf), sifted_options=C15.sopts(rho=0.5, k=k),
            selvars_options=C15.vopts(), data_dense=None, parallel_options=par))
    twice(ctx, ch, "SIFTED", go)


def projecting(ctx, n, nf, na, tries):
    from instancespace.data.options import PilotOptions
    from instancespace.stages.pilot import PilotInput, PilotStage
    ch = Chance(ctx)
    x = np.array([[((5 * i + 3 * j * j + i * i) % 7) - 3.0 for j in range(nf)] for i in range(n)])
    y = np.array([[1.0 + (3 * i + 2 * k) % 5 for k in range(na)] for i in range(n)])
    x, y = const(ctx, x), const(ctx, y)
    size = 2 * (nf + na) + 2 * nf

    def fmin_bfgs(f, x0, fprime=None, args=(), **k):
        key = (ch.dig(x0), ch.dig(args))
        s = ch.result("solution", key, lambda nm: vector(ctx, nm, size, -3, 3))
        return s.copy(), ch.result("optimum", key, lambda nm: ctx.real(nm, 0, 50)), 0, 0, 0, 0, 0
    ctx.stub(scipy.optimize.fmin_bfgs, fmin_bfgs)

    def pdist(M, *a, **k):
        m = len(raw(M))
        return ch.result("distance", (ch.dig(M), ch.dig(a), ch.dig(k)), lambda nm: vector(
            ctx, nm, m * (m - 1) // 2, 0, 100)).copy()
    ctx.stub(scipy.spatial.distance.pdist, pdist)
    ctx.stub(scipy.stats.pearsonr, lambda a, b, *r, **k: (ch.result(
        "score", (ch.dig(a), ch.dig(b)), lambda nm: ctx.real(nm, -1, 1)), 0.0))

    def corrcoef(x, y=None, rowvar=True, **k):
        m = sum(len(raw(v)) if rowvar else raw(v).shape[1] for v in (x, y) if v is not None)
        return ch.result("fit", (ch.dig(x), ch.dig(y)), lambda nm: matrix(
            ctx, nm, m, m, -1, 1)).copy()
    ctx.stub(np.corrcoef, corrcoef)
    twice(ctx, ch, "PILOT", lambda r: PilotStage._run(PilotInput(
        x.copy(), y.copy(), names("f", nf), PilotOptions.default(n_tries=tries, analytic=False))))


def training(ctx, n, na, grid=True, parallel=False, weights=False):
    from instancespace.data.options import ParallelOptions
    from instancespace.stages.pythia import PythiaInput, PythiaStage
    ch = Chance(ctx)

    def search(kind):
        def make(estimator, space=None, random_state=None, cv=None, **kw):
            space = kw.pop("param_distributions", kw.pop("search_spaces", space))
            out = types.SimpleNamespace()

            def fit(X, y=None, sample_weight=None, **fp):
                key = (kind, ch.dig(estimator), ch.dig(space), ch.dig(cv), ch.dig(kw),
                       ch.dig(X), ch.dig(y), ch.dig(sample_weight), ch.draw(random_state))
                nc = len(space["C"])
                pick = ch.result("choice", key, lambda nm: ctx.choose(nm, [0, nc - 1][:nc]))
                m = types.SimpleNamespace(key=key)
                m.predict = lambda Z: labels("predictions", (key, ch.dig(Z)))
                m.predict_proba = lambda Z: probs("probabilities", (key, ch.dig(Z)))
                out.best_estimator_ = m
                out.best_params_ = {k: space[k][pick] for k in ("C", "gamma")}
                out.predict, out.predict_proba = m.predict, m.predict_proba
                return out
            out.fit = fit
            return out
        return make

    def labels(kind, key):
        return ch.result(kind, key, lambda nm: bvector(ctx, nm, n)).copy()

    def probs(kind, key):
        p = raw(ch.result(kind, key, lambda nm: vector(ctx, nm, n, 0, 1)))
        o = np.empty((n, 2), dtype=object)
        for i in range(n):
            o[i, 0], o[i, 1] = 1.0 - p[i], p[i]
        return finish(ctx, o, "f")

    def cvp(model, X, y, cv=None, method="predict", **k):
        key = (model.key, ch.dig(X), ch.dig(y), ch.dig(cv))
        return labels("cv predictions", key) if method == "predict" else \
            probs("cv probabilities", key)
    ctx.stub(sklearn.model_selection.RandomizedSearchCV, search("grid"))
    ctx.stub(skopt.BayesSearchCV, search("bayes"))
    ctx.stub(sklearn.model_selection.cross_val_predict, cvp)

    scores = object.__new__(Env)
    scores.ctx, scores.n = ctx, n
    for f in ("confusion_matrix", "accuracy_score", "precision_score", "recall_score"):
        ctx.stub(getattr(sklearn.metrics, f), getattr(scores, "_" + f))
    yb = bmatrix(ctx, "good", n, na)
    both_classes(ctx, yb)
    y = np.array([[1.0 + (3 * i + 2 * k) % 5 for k in range(na)] for i in range(n)])

    def go(r):
        par = ParallelOptions(flag=bool(parallel and r), n_cores=2 + 5 * r)
        return PythiaStage._run(PythiaInput(
            coords(n), y.copy(), yb.copy(), y.max(axis=1), names("a", na),
            popts(use_grid_search=grid, use_weights=weights), par))
    twice(ctx, ch, "PYTHIA", go)


HARNESSES = [
    H(fraction, [dict(n=3)], [dict(n=4)]),
    H(normalising, [dict(n=3, maxp=True)], [dict(n=4, maxp=False)]),
    H(sifting, [dict(n=5, nf=4, na=1, k=2), dict(n=5, nf=4, na=1, k=2, parallel=True)],
      [dict(n=5, nf=5, na=2, k=3), dict(n=5, nf=5, na=2, k=3, parallel=True)]),
    H(projecting, [dict(n=3, nf=2, na=1, tries=2)], [dict(n=4, nf=3, na=2, tries=3)]),
    H(training, [dict(n=2, na=2), dict(n=2, na=1, grid=False, parallel=True),
                 dict(n=2, na=1, parallel=True)],
      [dict(n=3, na=2), dict(n=2, na=2, grid=False, parallel=True, weights=True)]),
]
EXPLANATION = ("Each stage that draws random numbers runs twice on the same symbolic data in one "
               "process. Library calls return arbitrary results that repeat exactly when their "
               "arguments and seeds repeat; generators made without a seed, and the process' own, "
               "start in an arbitrary state in each run. Every output of the two runs must be "
               "equal; for SIFTED and PYTHIA also when only one of them runs in parallel.")
BOUNDS = ("2 to 5 instances, 1 to 4 features, 1 to 2 algorithms, two runs; an unseeded generator "
          "starts in one of two states per run")
OUTSIDE = ("randomness inside library calls beyond their seed; hash order between processes; PREPROCESSING, CLOISTER and TRACE, which draw nothing (the order of TRACE's tasks is C21's)")
ASSUMPTIONS = ["with equal arguments and seeds, scikit-learn, scikit-optimize, pygad and scipy give equal results, however many workers they use"]
