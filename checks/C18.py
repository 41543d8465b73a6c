from checks.pythia_common import *
from sx.run import H

PROPERTY = "C18"
LEVEL = "model_checking"


def cell_is(cell, want):
    if isinstance(cell, str):
        return np.bool_(want is None and cell == "")
    if want is None:
        return isnan(cell)
    return And(Not(isnan(cell)), le(cell, want + 0.0011), ge(cell, want - 0.0011))


def mean(xs):
    return total(xs) * (1.0 / len(xs)) if len(xs) else None


def near_std(cell, xs):
    """cell is the deviation of xs (within rounding), stated without a square root."""
    if not len(xs):
        return cell_is(cell, None)
    if isinstance(cell, str):
        return np.bool_(False)
    m = mean(xs)
    v = total([(x - m) * (x - m) for x in xs]) * (1.0 / len(xs))
    lo = cell - 0.0011
    lo = If(lo > 0, lo, 0.0)
    return And(ge(cell, -1e-9), le(lo * lo, v), ge((cell + 0.0011) * (cell + 0.0011), v))


def selection(ctx, n, na, free=False):
    """Which algorithm is selected, for arbitrary predictions, precisions and goodness."""
    env = Env(ctx, n)
    if free:      # precisions of more instances than there are here
        ctx.stub(sklearn.metrics.precision_score,
                 lambda t, p, **k: ctx.real(ctx.fresh_id("precision"), 0, 1))
    y = const(ctx, np.array([[1.0 + 3 * i + 7 * j * j + i * j for j in range(na)]
                             for i in range(n)]))
    yb = bmatrix(ctx, "good", n, na)
    both_classes(ctx, yb)
    best = vector(ctx, "best", n, 0, 9)

    def nanstd(a, axis=None, **k):
        if conc():
            return np.nanstd(a, axis=axis, **k)
        m = raw(a).shape
        return ctx.real(ctx.fresh_id("std"), 0, 99) if axis is None else \
            vector(ctx, ctx.fresh_id("std"), m[1 - axis], 0, 99)
    ctx.stub(np.nanstd, nanstd)
    o = run(const(ctx, coords(n)), y, yb, best, popts())
    P = list(o.precision)
    H_, Y = raw(o.y_hat), raw(yb)
    s0, s1 = raw(o.selection0), raw(o.selection1)
    ok = s0.shape == (n,) and s1.shape == (n,)
    ctx.check(np.bool_(ok), "one selection per instance")
    if not ok:
        return
    avg = [count(list(Y[:, k])) for k in range(na)]
    for i in range(n):
        cand = [And(H_[i, k], P[k] > 0) for k in range(na)]
        for k in range(na):
            ctx.check(Implies(ieq(s0[i], k), And(cand[k], *[Implies(H_[i, j], ge(P[k], P[j]))
                                                           for j in range(na)])),
                      "the selected algorithm is predicted good and the most precise of those")
            ctx.check(Implies(And(Not(Or(*cand)), ieq(s1[i], k)),
                              And(*[ge(avg[k], a) for a in avg])),
                      "the fallback is the algorithm most often good")
        ctx.check(Iff(Or(*cand), s0[i] >= 0), "there is a selection exactly when one is predicted good")
        ctx.check(And(s0[i] >= -1, s0[i] < na), "selections number an algorithm, or -1 for none")
        ctx.check(And(s1[i] >= 0, s1[i] < na), "the fallback always names an algorithm")
        ctx.check(Implies(Or(*cand), ieq(s1[i], s0[i])), "the fallback changes only missing selections")
    # which instances the summary counts for the selector
    sm = o.pythia_summary
    ctx.check(np.bool_(list(sm["Algorithms"]) == names("a", na) +
                       ["Oracle", "Selector"]), "summary rows are the algorithms, oracle, selector")
    g = count([Or(*[And(ieq(s1[i], k), Y[i, k]) for k in range(na)]) for i in range(n)])
    ctx.check(cell_is(sm["Probability_of_good"].iloc[na + 1], g * (1.0 / n)),
              "selector: probability of good")
    for k in range(na):
        ctx.check(cell_is(sm["Probability_of_good"].iloc[k], avg[k] * (1.0 / n)),
                  "algorithm: probability of good")
    if free:
        return ctx.reach()
    tp = count([And(ieq(s0[i], k), Y[i, k]) for i in range(n) for k in range(na)])
    fp = count([And(ieq(s0[i], k), Not(Y[i, k])) for i in range(n) for k in range(na)])
    fn = count([And(Not(ieq(s0[i], k)), Y[i, k]) for i in range(n) for k in range(na)])
    ctx.check(And(cell_is(sm["CV_model_precision"].iloc[na + 1], 100 * ratio(tp, fp, n * na)),
                  cell_is(sm["CV_model_recall"].iloc[na + 1], 100 * ratio(tp, fn, n * na))),
              "selector: precision and recall")
    full = total([If(ieq(s1[i], k), raw(y)[i, k], 0.0) for i in range(n) for k in range(na)])
    ctx.check(cell_is(sm["Avg_Perf_all_instances"].iloc[na + 1], full * (1.0 / n)),
              "selector: average performance over all instances")
    c0 = count([s0[i] >= 0 for i in range(n)])
    part = total([If(ieq(s0[i], k), raw(y)[i, k], 0.0) for i in range(n) for k in range(na)])
    cell = sm["Avg_Perf_selected_instances"].iloc[na + 1]
    for c in range(0, n + 1):
        if isinstance(cell, str):
            ctx.check(c0 == 0, "selector: average performance over its selected instances")
            break
        ctx.check(Implies(c0 == c, isnan(cell) if c == 0 else cell_is(cell, part * (1.0 / c))),
                  "selector: average performance over its selected instances")
    for k in range(na):
        cell = sm["Avg_Perf_selected_instances"].iloc[k]
        cnt = count(list(H_[:, k]))
        part = total([If(H_[i, k], raw(y)[i, k], 0.0) for i in range(n)])
        for c in range(0, n + 1):
            if isinstance(cell, str):
                ctx.check(cnt == 0, "algorithm: average performance where predicted good")
                break
            ctx.check(Implies(cnt == c, isnan(cell) if c == 0 else cell_is(cell, part * (1.0 / c))),
                      "algorithm: average performance where predicted good")
        ctx.check(cell_is(sm["Avg_Perf_all_instances"].iloc[k],
                          float(np.mean([1.0 + 3 * i + 7 * k * k + i * k for i in range(n)]))),
                  "algorithm: average performance over all instances")
    ctx.reach()


def averages(ctx, n, na, nan=False):
    """Summary of arbitrary performances for every pattern of predictions (fixed precisions)."""
    env = Env(ctx, n)
    y = matrix(ctx, "y", n, na, -9, 9)
    if nan:
        y[0, 0] = np.nan
    Yv = raw(y).copy()
    yb = np.array([[(i + k) % 2 == 0 for k in range(na)] for i in range(n)])
    best = vector(ctx, "best", n, -9, 9)
    B = raw(best).copy()
    pat = [[ctx.choose(f"predict[{i},{k}]", [True, False]) for k in range(na)] for i in range(n)]

    def fixed(c, name, m):
        i = len(env.recs)
        if name.startswith("predicted"):
            return np.array([pat[r][i] for r in range(m)])
        if name.startswith("cv_predicted"):
            return np.array([True] * m) if i == 0 else yb[:, i].copy()
        return bvector(c, name, m)
    env.bvector = fixed
    o = run(const(ctx, coords(n)), y, yb, best, popts())
    s0, s1 = [int(v) for v in o.selection0], [int(v) for v in o.selection1]
    sm = o.pythia_summary

    def live(vs):
        return [v for v in vs if not (isinstance(v, float) and np.isnan(v))]
    sets = {k: (live(Yv[:, k]), live([Yv[i, k] for i in range(n) if o.y_hat[i, k]]))
            for k in range(na)}
    sets[na + 1] = (live([Yv[i, s1[i]] for i in range(n)]),
                    live([Yv[i, s0[i]] for i in range(n) if s0[i] >= 0]))
    sets[na] = (list(B), [])
    for r, (every, sel) in sets.items():
        who = "oracle" if r == na else "selector" if r > na else "algorithm"
        row = sm.iloc[r]
        ctx.check(And(cell_is(row["Avg_Perf_all_instances"], mean(every)),
                      cell_is(row["Avg_Perf_selected_instances"], mean(sel))),
                  f"{who}: average performance")
        ctx.check(And(near_std(row["Std_Perf_all_instances"], every),
                      near_std(row["Std_Perf_selected_instances"], sel)),
                  f"{who}: deviation of performance")
    ctx.reach()


HARNESSES = [
    H(selection, [dict(n=2, na=2), dict(n=3, na=2), dict(n=2, na=3), dict(n=2, na=1),
                  dict(n=2, na=2, free=True)],
      [dict(n=3, na=3), dict(n=4, na=2), dict(n=3, na=1)]),
    H(averages, [dict(n=2, na=2), dict(n=2, na=2, nan=True)],
      [dict(n=3, na=1), dict(n=3, na=2)]),
]
EXPLANATION = """The real stage runs with arbitrary model predictions (see C19 for the stand-ins) and
symbolic goodness labels; the selections and every average, deviation, probability, precision and
recall of the summary are compared with their definitions over the returned predictions and
selections. Deviations are compared without square roots."""
BOUNDS = "2 to 4 instances and 1 to 3 algorithms, all predictions, goodness labels; performances within [-9, 9]."
OUTSIDE = "Larger tables; ties in precision may go to any of the tied algorithms; rounding to 3 decimals is allowed twice."
ASSUMPTIONS = ["labels of each algorithm include both classes (the learner refuses others)"]
