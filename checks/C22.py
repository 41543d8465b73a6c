from checks.save_common import *
from sx.run import H

PROPERTY = "C22"
LEVEL = "model_checking"

ALGS, FEATS = ["q", "p"], ["c", "a"]
TRACE = ["Area_Good", "Area_Good_Normalised", "Density_Good", "Density_Good_Normalised",
         "Purity_Good", "Area_Best", "Area_Best_Normalised", "Density_Best",
         "Density_Best_Normalised", "Purity_Best"]


def labels(n, kind):
    v = {"text": [f"inst {i}" for i in range(n)], "number": list(range(10, 10 + n))}[kind]
    return pd.Series(v, index=[3 * i + 1 for i in range(n)])      # as after removing instances


def numbers(ctx, rows, cols, name):
    v = np.empty((rows, len(cols)), dtype=object)
    for i in range(rows):
        for j in range(len(cols)):
            v[i, j] = ctx.real(f"{name}[{i},{j}]", -1000, 1000)
    return v


def frame(ctx, name, first, rows, cols):
    v = numbers(ctx, len(rows), cols, name)
    d = {first: rows}
    d.update({c: list(v[:, j]) for j, c in enumerate(cols)})
    return pd.DataFrame(d), v


SQUARE = [(0.0, 0.0), (2.0, 0.0), (2.0, 1.0), (0.5, 3.0)]
SHIFT = [(x + 10, y + 5) for x, y in SQUARE[:3]]


def tables(ctx, n=3, kind="text", idx=(2, 0), shapes="one", cloister=True):
    from instancespace.data import model as m
    lab = labels(n, kind)
    x_raw, x = matrix(ctx, "x_raw", n, 3), matrix(ctx, "x", n, 2)
    y_raw, y = matrix(ctx, "y_raw", n, 2, nan=True), matrix(ctx, "y", n, 2, nan=True)
    z = matrix(ctx, "z", n, 2)
    y_bin, y_hat = bmatrix(ctx, "good", n, 2), bmatrix(ctx, "predicted", n, 2)
    beta, p = bvector(ctx, "beta", n), ivector(ctx, "best", n, 1, 2)
    good = vector(ctx, "number good", n, 0, 2)
    sel = ivector(ctx, "selected", n, 0, 2)
    edge, ecorr = matrix(ctx, "edge", 4, 2), matrix(ctx, "ecorr", 3, 2)
    ts, tv = frame(ctx, "trace summary", "Algorithm", ALGS, TRACE)
    ps, pv = frame(ctx, "pilot summary", 0, ["Z_{1}", "Z_{2}"], FEATS)
    ys, yv = frame(ctx, "pythia summary", "Algorithms", [*ALGS, "Oracle", "Selector"],
                   ["Accuracy", "Recall"])
    ys["Precision"] = np.nan       # a measure may be missing throughout
    a, b = Polygon(SQUARE), Polygon(SHIFT)
    c = Polygon([(x + 20, y) for x, y in SQUARE], [[(21.0, 0.5), (21.5, 0.5), (21.0, 1.0)]])
    shape = {"one": [a, c], "two": [MultiPolygon([a, b, c]), a], "none": [None, Polygon()]}[shapes]
    mo = make(
        ctx, data=data(inst_labels=lab, feat_labels=list(FEATS), algo_labels=list(ALGS), x=x, y=y,
                       x_raw=x_raw, y_raw=y_raw, y_bin=y_bin, p=p, num_good_algos=good,
                       beta=beta),
        sifted=blank(m.SiftedOut, idx=np.array(idx)),
        pilot=blank(m.PilotOut, z=z, summary=ps), pythia=blank(
            m.PythiaOut, y_hat=y_hat, selection0=sel, summary=ys),
        cloister=m.CloisterOut(edge, ecorr) if cloister else None,
        trace=blank(m.TraceOut, best=[footprint(s) for s in shape],
                    good=[footprint(s) for s in reversed(shape)], summary=ts))
    columns = [list(t.columns) for t in (ts, ps, ys)]
    with Folder(ctx) as f:
        mo.save_to_csv(f.path)
        rows = list(lab)
        T = [("coordinates.csv", ["z_1", "z_2"], raw(z), "coordinates"),
             ("feature_raw.csv", FEATS, raw(x_raw)[:, list(idx)], "raw features"),
             ("feature_process.csv", FEATS, raw(x), "processed features"),
             ("algorithm_raw.csv", ALGS, raw(y_raw), "raw performances"),
             ("algorithm_process.csv", ALGS, raw(y), "processed performances"),
             ("algorithm_bin.csv", ALGS, raw(y_bin), "good performances"),
             ("algorithm_svm.csv", ALGS, raw(y_hat), "predictions"),
             ("good_algos.csv", ["NumGoodAlgos"], raw(good)[:, None], "numbers of good ones"),
             ("beta_easy.csv", ["IsBetaEasy"], raw(beta)[:, None], "beta scores"),
             ("portfolio.csv", ["Best_Algorithm"], raw(p)[:, None], "best algorithms"),
             ("portfolio_svm.csv", ["Best_Algorithm"], raw(sel)[:, None], "selections")]
        for name, cols, v, what in T:
            check_table(ctx, f, name, cols, rows, v, what)
        if cloister:
            for name, v, k in (("bounds.csv", edge, 4), ("bounds_prunned.csv", ecorr, 3)):
                check_table(ctx, f, name, ["z_1", "z_2"], [f"bnd_pnt_{i + 1}" for i in range(k)],
                            raw(v), "bounds")
        shown = [c for c in TRACE if c not in ("Area_Good", "Area_Best", "Density_Good",
                                               "Density_Best")]
        check_table(ctx, f, "footprint_performance.csv", shown, ALGS,
                    tv[:, [TRACE.index(c) for c in shown]], "footprint measures")
        check_table(ctx, f, "projection_matrix.csv", FEATS, ["Z_{1}", "Z_{2}"], pv,
                    "projection weights")
        check_table(ctx, f, "svm_table.csv", ["Accuracy", "Recall", "Precision"],
                    [*ALGS, "Oracle", "Selector"],
                    np.hstack([yv, np.full((len(yv), 1), np.nan, dtype=object)]), "prediction measures")
        for i, alg in enumerate(ALGS):
            for what, s in (("best", shape[i]), ("good", shape[1 - i])):
                t = f.table(f"footprint_{alg}_{what}.csv")
                if s is None:
                    ctx.check(np.bool_(t is None), "no footprint, no boundary")
                    continue
                pts = [tuple(map(float, r[-2:])) for r in t[1]] if t else []
                want = [q for g in getattr(s, "geoms", [s]) for q in list(g.exterior.coords)[:-1]]
                ctx.check(np.bool_([q for k, q in enumerate(pts) if q not in pts[:k]] == want),
                          "boundaries are the corners of the footprint in order")
    ctx.check(np.bool_([list(t.columns) for t in (mo.trace.summary, mo.pilot.summary,
                                                  mo.pythia.summary)] == columns),
              "saving leaves the model as it was")
    ctx.reach()


def colours(ctx, n=3, raw_=True, nan=False, what="y"):
    from instancespace.data import model as m
    lab = labels(n, "text")
    zero = np.zeros((n, 2))
    v = matrix(ctx, "v", n, 2, -1000, 1000, nan=nan)
    g = vector(ctx, "number good", n, 0, 2)
    x_raw = np.zeros((n, 3))
    idx = [2, 0]
    if what == "x":
        v3 = matrix(ctx, "w", n, 3, -1000, 1000)
        x_raw = v3
    mo = make(ctx, data=data(inst_labels=lab, feat_labels=FEATS, algo_labels=ALGS,
                             x=v if what == "x" else zero, x_raw=x_raw,
                             y=zero if what == "x" or raw_ else v,
                             y_raw=v if raw_ and what == "y" else zero,
                             num_good_algos=g if what == "g" else np.arange(n)),
              feat_sel=m.FeatSel(np.array(idx)))
    with Folder(ctx) as f:
        mo.save_for_web(f.path)
        t = {"x": [("feature_process_color.csv", FEATS, raw(v), False)],
             "y": [(f"algorithm_{'raw' if raw_ else 'process'}_single_color.csv", ALGS, raw(v),
                    False),
                   (f"algorithm_{'raw' if raw_ else 'process'}_color.csv", ALGS, raw(v), True)],
             "g": [("good_algos_color.csv", ["NumGoodAlgos"], raw(g)[:, None], True)]}[what]
        if what == "x":
            t.append(("feature_raw_color.csv", FEATS, raw(v3)[:, idx], False))
        for name, cols, val, whole in t:
            head, rows = f.table(name)
            ctx.check(np.bool_(head == ["Row", *cols] and [r[0] for r in rows] == list(lab)),
                      "colours have the labels of their values")
            c = np.array([r[1:] for r in rows], dtype=object)
            groups = [[(i, j) for i in range(n) for j in range(len(cols))]] if whole else \
                [[(i, j) for i in range(n)] for j in range(len(cols))]
            for gr in groups:
                for a in gr:
                    here = Not(isnan(val[a]))
                    ctx.check(Implies(here, And(ge(c[a], 0), le(c[a], 255), eq(c[a] % 1, 0))),
                              "colours of values are whole numbers from 0 to 255")
                    for b in gr:
                        if a != b:
                            ctx.check(Implies(And(here, Not(isnan(val[b])), val[a] <= val[b]),
                                              le(c[a], c[b])), "larger values have larger colours")
                known = [q for q in gr]
                lo = [And(Not(isnan(val[a])), *[Or(isnan(val[b]), val[a] <= val[b])
                                                for b in known]) for a in gr]
                hi = [And(Not(isnan(val[a])), *[Or(isnan(val[b]), val[a] >= val[b])
                                                for b in known]) for a in gr]
                for a in gr:
                    ctx.check(Implies(isnan(val[a]), isnan(c[a])), "missing values have no colour")
                for k, a in enumerate(gr):
                    ctx.check(Implies(lo[k], eq(c[a], 0)), "the smallest value has colour 0")
                    ctx.check(Implies(And(hi[k], Not(lo[k])), eq(c[a], 255)),
                              "the largest value has colour 255")
    ctx.reach()


HARNESSES = [
    H(tables, [dict(), dict(kind="number", idx=(0, 1), shapes="two"),
               dict(shapes="none", cloister=False)],
      [dict(n=6), dict(n=5, kind="number", idx=(1, 0), shapes="two"), dict(n=1, idx=(2, 1))]),
    H(colours, [dict(what="g"), dict(n=2, what="x"), dict(n=2, what="y"),
                dict(n=2, what="y", raw_=False, nan=True)],
      [dict(n=4, what="g"), dict(n=3, what="x"), dict(n=3, what="y"),
       dict(n=3, what="y", raw_=False), dict(n=3, what="y", nan=True)])]
EXPLANATION = ("A model with symbolic contents is saved with save_to_csv and save_for_web; the "
               "tables handed to pandas for writing must have the model's labels and, for every "
               "pair of labels, the model's value; colours must be whole numbers from 0 to 255 "
               "that follow the order of the values and reach both ends.")
BOUNDS = ("3 instances (text or number labels, index with gaps), 2 of 3 features selected, 2 "
          "algorithms; colours of 2-3 instances, values in [-1000, 1000] or missing; "
          "footprints with one part, three parts (one with a hole) or none; thorough: up to 6 instances")
OUTSIDE = ("the writing of the text file by pandas (real on replay); the holes themselves; the "
           "zip archive; the Matlab file")
ASSUMPTIONS = ["pandas writes the frame it is given (to_csv is recorded in symbolic runs)"]
