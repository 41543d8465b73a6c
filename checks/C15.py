import types

import pandas as pd
import pygad
import scipy.stats
import sklearn.cluster
import sklearn.metrics
import sklearn.model_selection

from sx.run import H
from sx.spec import *

PROPERTY = "C15"
LEVEL = "model_checking"
PV = 0.05


def data(n, nf, na):
    """Distinct values, so that every column, row and cell can be recognised."""
    x = np.array([[(37.0 * i + 61 * j + 11 * i * j * j + 70) % 101 for j in range(nf)]
                  for i in range(n)])
    y = np.array([[0.5 + 5 * i * i + 11 * k - 2 * i * k for k in range(na)] for i in range(n)])
    yb = np.array([[(i + k) % 2 == 0 or i == k for k in range(na)] for i in range(n)])
    return x, y, yb


def lab(n, pre):
    return pd.Series([f"{pre}{i}" for i in range(n)])


def sopts(**k):
    from instancespace.data.options import SiftedOptions
    return SiftedOptions.default(**k)


def vopts(**k):
    from instancespace.data.options import SelvarsOptions
    d = dict(small_scale_flag=False, small_scale=0.5, file_idx_flag=False, file_idx="",
             feats=None, algos=None, selvars_type="Ftr", min_distance=0.1, density_flag=False)
    d.update(k)
    return SelvarsOptions(**d)


def rows(n, nf, na, shift=0):
    x, y, yb = data(n, nf, na)
    return dict(x=x + shift, y=y + shift, y_bin=yb, x_raw=x * 2 + shift, y_raw=y * 2 + shift,
                beta=np.array([i % 3 == 1 for i in range(n)]),
                num_good_algos=np.array([(3.0 * i + 1) % 7 for i in range(n)]),
                y_best=y.max(axis=1) + shift, p=np.array([(4 * i + 3) % 9 for i in range(n)]),
                inst_labels=lab(n, f"i{shift}_"), s=lab(n, f"s{shift}_"))


def run(d, nf, so, vo=None, dense=None):
    from instancespace.data.model import DataDense
    from instancespace.data.options import ParallelOptions
    from instancespace.stages.sifted import SiftedInput, SiftedStage
    dd = None
    if dense is not None:
        dd = DataDense(**{k: dense[k] for k in DataDense.__dataclass_fields__})
    return SiftedStage._run(SiftedInput(
        **d, feat_labels=names("f", nf), sifted_options=so,
        selvars_options=vo or vopts(), data_dense=dd, parallel_options=ParallelOptions.default()))


PER_INST = ("y", "y_bin", "x_raw", "y_raw", "beta", "num_good_algos", "y_best", "p",
            "inst_labels", "s")


def agree(ctx, o, d, nf, keep=None):
    """The outputs describe one selection of columns; rows are those of d (those in keep)."""
    n = d["x"].shape[0]
    keep = list(range(n)) if keep is None else keep
    sv = [int(v) for v in o.selvars]
    ctx.check(np.bool_(len(set(sv)) == len(sv) and all(0 <= v < nf for v in sv)),
              "selected feature numbers are distinct and exist")
    ctx.check(np.bool_([str(v) for v in o.feat_labels] == [names("f", nf)[j] for j in sv]),
              "selected names are those of the selected numbers")
    ctx.check(np.bool_(o.x.shape == (len(keep), len(sv))) and eq_arr(o.x, d["x"][keep][:, sv]),
              "returned features are the selected columns")
    ctx.check(np.bool_([int(v) for v in o.idx] == sv),
              "reported feature indices are the selected numbers")
    for f in PER_INST:
        g, w = getattr(o, f), d[f]
        ok = list(g) == [w.iloc[i] for i in keep] if f in ("inst_labels", "s") else \
            eq_arr(np.asarray(g), w[keep])
        ctx.check(np.bool_(bool(ok)), f"{f} keeps one row per instance")
    return sv


def correlations(ctx, d, nf, na, given):
    """Stub of the correlation test: given(j, k) -> (rho, pval)."""
    x, y = d["x"], d["y"]

    def pearsonr(a, b, *r, **kw):
        for k in range(na):
            kk = [j for j in range(nf) if _pair(a, b, x[:, j], y[:, k])]
            if kk:
                return given(kk[0], k)
        raise AssertionError("correlation of something else")
    ctx.stub(scipy.stats.pearsonr, pearsonr)


def _same(a, col, other):
    m = ~np.isnan(col) & ~np.isnan(other)
    a = np.asarray(raw(a), dtype=float)
    return a.shape == col[m].shape and bool(np.all(a == col[m]))


def _pair(a, b, xc, yc):
    return _same(a, xc, yc) and _same(b, yc, xc)


def correlation(ctx, n, nf, na, pv=True, nan=False, level=False, part=False):
    """nf - (at most 3 selected or K = nf): the correlation step decides the result."""
    d = rows(n, nf, na)
    if nan:
        d["x"][0, 1] = d["y"][1, 0] = np.nan
    tab, sig = {}, {}
    for j in range(nf):
        for k in range(na):
            tab[j, k] = ctx.real(f"rho[{j},{k}]", -1, 1) if not part or k == 0 or j < 2 else \
                np.float64(0.1 * j)
            if level and (j, k) == (1, 0):
                tab[j, k] = np.float64("nan")       # a constant feature has no correlation
            sig[j, k] = ctx.bool(f"significant[{j},{k}]") if pv else True
    thr = ctx.real("threshold", 0.05, 1)

    def given(j, k):
        s = sig[j, k]
        if level:      # exactly on the usual level is significant
            return tab[j, k], np.float64("nan") if (j, k) == (1, 0) else \
                (If(s, PV, 0.3) if not conc() else (PV if s else 0.3))
        return tab[j, k], (If(s, 0.01, 0.3) if not conc() else (0.01 if s else 0.3))
    correlations(ctx, d, nf, na, given)
    from instancespace.stages.sifted import NotEnoughFeatureError
    o, e = attempt(lambda: run(dict(d, x=d["x"].copy(), y=d["y"].copy()), nf,
                               sopts(rho=thr, k=nf)))
    A = {c: np.float64(0) if bool(isnan(tab[c])) else
         If(sig[c], absv(tab[c]), 0.0) if pv else absv(tab[c]) for c in tab}
    top = {(j, k): And(*[ge(A[j, k], A[i, k]) for i in range(nf)]) for j in range(nf)
           for k in range(na)}
    over = {c: A[c] >= thr for c in A}
    if e is not None:
        if not isinstance(e, NotEnoughFeatureError):
            raise e
        # refused: no second feature may have reached the threshold
        ctx.check(And(count([Or(*[over[j, k] for k in range(na)]) for j in range(nf)]) <= 1),
                  "refused only when fewer than two features qualify")
        ctx.reach()
        return
    dd = dict(d)
    sv = [int(v) for v in o.selvars]
    if not nan:
        agree(ctx, o, dd, nf)
    ctx.check(np.bool_(sv == sorted(sv)), "correlation step keeps the input order")
    for j in range(nf):
        if j in sv:
            ctx.check(Or(*[Or(over[j, k], top[j, k]) for k in range(na)]),
                      "a kept feature is the strongest or reaches the threshold")
        else:
            ctx.check(And(*[Not(over[j, k]) for k in range(na)]),
                      "a feature reaching the threshold is kept")
    for k in range(na):
        ctx.check(Or(*[top[j, k] for j in sv]),
                  "the strongest feature of every algorithm is kept")
    ctx.reach()


def few(ctx, nf, gone):
    """Three features or fewer are left: they are not clustered even if that was asked for."""
    d = rows(4, nf, 2)
    keep = [j for j in range(nf) if j not in gone]
    r = {j: ctx.real(f"rho{j}", 0.5, 1) for j in keep}
    correlations(ctx, d, nf, 2, lambda j, k: (r[j], 0.001) if j in keep else (0.9, 0.5))

    def KMeans(*a, **k):
        raise AssertionError("no clustering expected")
    ctx.stub(sklearn.cluster.KMeans, KMeans)
    o = run(d, nf, sopts(k=2, rho=0.5))
    sv = agree(ctx, o, d, nf)
    ctx.check(np.bool_(sv == keep), "with three features or fewer nothing is clustered away")
    ctx.reach()


def skipped(ctx, nf, flag):
    d = rows(4, nf, 2)

    def given(j, k):
        raise AssertionError("no correlation expected")
    correlations(ctx, d, nf, 2, given)
    o = run(d, nf, sopts(flag=flag, k=2, rho=ctx.real("rho", 0, 1)))
    sv = agree(ctx, o, d, nf)
    ctx.check(np.bool_(sv == list(range(nf))), "without selection every feature is kept in order")
    ctx.reach()


def search(ctx, n, nf, na, k, cands, drop=(None,), density=False):
    """Correlation step with fixed outcome, then arbitrary clustering and search."""
    d = rows(n, nf, na)
    gone = ctx.choose("dropped", list(drop))
    correlations(ctx, d, nf, na, lambda j, a: (0.9 if j != gone else 0.01, 0.001))
    kept = [j for j in range(nf) if j != gone]
    clusters = []

    def cols_of(m):
        m = np.asarray(raw(m), dtype=float)
        return tuple(next(j for j in range(nf) if np.all(m[:, c] == d["x"][:, j]))
                     for c in range(m.shape[1]))

    def KMeans(n_clusters=8, **kw):
        def fit_predict(xt):
            feats = cols_of(np.asarray(raw(xt), dtype=float).T)
            if "n_init" in kw and kw["n_init"] == "auto":     # silhouette exploration
                return np.arange(len(feats)) % n_clusters
            lab_ = [ctx.choose(f"cluster_of[{j}]", list(range(n_clusters))) for j in feats]
            if set(lab_) != set(range(n_clusters)):
                ctx.assume(False)
            clusters.append(dict(zip(feats, lab_)))
            return np.array(lab_)
        return types.SimpleNamespace(fit_predict=fit_predict)
    ctx.stub(sklearn.cluster.KMeans, KMeans)
    sil = []

    def silhouette_score(*a, **kw):
        sil.append(ctx.choose(f"silhouette[{len(sil)}]", [0.25, 0.5]))
        return sil[-1]
    ctx.stub(sklearn.metrics.silhouette_score, silhouette_score)
    errs, seen = {}, []

    def cross_val_score(est, z, target, *a, **kw):
        cols = cols_of(z)
        t = np.asarray(raw(target)).astype(bool)
        al = next(a_ for a_ in range(na) if np.all(t == d["y_bin"][:, a_]))
        if (cols, al) not in errs:
            errs[cols, al] = ctx.real(f"error[{cols},{al}]", 0, 1)
        if kw.get("scoring") != "neg_mean_squared_error":
            raise AssertionError("scored by something else")
        return vec(ctx, [-errs[cols, al]])
    ctx.stub(sklearn.model_selection.cross_val_score, cross_val_score)
    from instancespace.stages.pilot import PilotStage

    def project(x, *a, **kw):
        return types.SimpleNamespace(z=x)
    ctx.stub(PilotStage.pilot, project)
    sols = []

    def GA(**kw):
        if kw["num_genes"] != k:
            raise AssertionError("one gene per cluster")
        me = types.SimpleNamespace()

        def go():
            for c in range(cands):
                sol = np.array([ctx.choose(f"gene[{c},{g}]", [0, 1, 2][:nf - k + 1])
                                for g in range(k)])
                fit = kw["fitness_func"](me, sol, c)
                sols.append((sol, fit))

        def best():
            b = 0
            for c in range(1, cands):
                if bool(sols[c][1] > sols[b][1]):
                    b = c
            return sols[b][0], sols[b][1], b
        me.run, me.best_solution = go, best
        return me
    ctx.stub(pygad.GA, GA)
    dense = rows(n + 1, nf, na, shift=1) if density else None
    vo = vopts(density_flag=True, min_distance=ctx.choose("distance", [1, 8.0, 40.0])) \
        if density else None
    o = run(d, nf, sopts(rho=0.5, k=k), vo, dense)
    if density:
        from instancespace.utils.filter import filter_instance
        sv = [int(v) for v in o.selvars]
        out, _, _ = filter_instance(dense["x"][:, sv], dense["y"], dense["y_bin"],
                                    vo.selvars_type, vo.min_distance)
        keep = [i for i in range(n + 1) if not bool(out[i])]
        agree(ctx, o, dense, nf, keep)
    else:
        sv = agree(ctx, o, d, nf)
    if len(clusters) != 1:
        raise AssertionError("clustered more than once")
    cl = clusters[0]
    ctx.check(np.bool_(sorted(cl) == kept), "exactly the kept features are clustered")
    ctx.check(np.bool_(sorted(cl.get(j, -1) for j in sv) == list(range(k))),
              "exactly one feature per cluster is kept")
    worst = {}
    for cols, al in errs:
        worst.setdefault(tuple(sorted(cols)), []).append(errs[cols, al])
    mine = worst.get(tuple(sorted(sv)))
    ctx.check(np.bool_(mine is not None and len(mine) == na),
              "the kept combination was evaluated for every algorithm")
    if mine is not None:
        for w in worst.values():
            ctx.check(le(mx(mine), mx(w)),
                      "no evaluated combination has a smaller worst prediction error")
    ctx.reach()


def vec(ctx, xs):
    o = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        o[i] = x
    return finish(ctx, o, "f")


HARNESSES = [
    H(correlation, [dict(n=4, nf=4, na=1), dict(n=4, nf=4, na=2, pv=False, part=True),
                    dict(n=5, nf=4, na=1, nan=True), dict(n=4, nf=4, na=1, level=True)],
      [dict(n=4, nf=5, na=1), dict(n=4, nf=4, na=2, pv=False), dict(n=4, nf=4, na=2, part=True)]),
    H(few, [dict(nf=4, gone=(1,)), dict(nf=5, gone=(0, 3)), dict(nf=4, gone=(0, 2))]),
    H(skipped, [dict(nf=2, flag=True), dict(nf=3, flag=True), dict(nf=5, flag=False)]),
    H(search, [dict(n=5, nf=4, na=2, k=2, cands=2),
               dict(n=5, nf=5, na=1, k=3, cands=1, drop=(2,)),
               dict(n=4, nf=4, na=1, k=2, cands=1, density=True)],
      [dict(n=5, nf=5, na=2, k=3, cands=2, drop=(None, 0, 2, 4)),
       dict(n=5, nf=4, na=2, k=2, cands=3),
       dict(n=5, nf=4, na=1, k=3, cands=2, density=True)]),
]
BOUNDS = ("4 to 5 features, 1 to 2 algorithms, arbitrary correlations and significance; 2 to 3 "
          "clusters, arbitrary assignment, 1 to 3 candidates with arbitrary errors")
OUTSIDE = ("the correlation test, k-means, the genetic search's own moves, PILOT and the "
           "cross-validated learner (arbitrary results); clusters without a feature")
EXPLANATION = ("SiftedStage runs with arbitrary correlation coefficients and p-values, arbitrary "
               "cluster assignments and arbitrary candidate scores; which columns are selected, and "
               "that values, labels, indices, raw data and per-instance outputs all describe that "
               "one selection, is decided against formulas.")
ASSUMPTIONS = [("stubs return any value of the right shape: pearsonr, KMeans, silhouette_score, "
               "pygad.GA (asks for fitness of arbitrary candidates and returns the fittest), "
               "cross_val_score, PilotStage.pilot")]
