import pandas as pd

from sx.run import H
from sx.spec import *

PROPERTY = "C07"
LEVEL = "model_checking"


def selvars(feats, algos):
    from instancespace.data.options import SelvarsOptions
    return SelvarsOptions(small_scale_flag=False, small_scale=0.5, file_idx_flag=False,
                          file_idx="", feats=feats, algos=algos, selvars_type="Ftr",
                          min_distance=0.1, density_flag=False)


def subset(ctx, name, names, unknown):
    """None, empty, or a list naming some columns (any order), possibly unknown ones too."""
    kind = ctx.choose(name, ["none", "empty", "some"] + (["unknown"] if unknown else []))
    if kind == "none":
        return None
    if kind == "empty":
        return []
    if kind == "unknown":
        return ["no_such_column"]
    pick = [nm for nm in names if bool(ctx.bool(f"{name}.{nm}"))]
    if bool(ctx.bool(f"{name}.reversed")):
        pick = pick[::-1]
    if bool(ctx.bool(f"{name}.extra")):
        pick = pick + ["no_such_column"]
    return pick


def few_rows(ctx):
    """np.unique over rows, which the code only counts for a message: all equal or all distinct
    (the small configurations run the full model of it)."""
    unique = np.unique

    def stub(ar, *a, axis=None, **k):
        if conc() or axis != 0 or a or k:
            from sx.hook import sym_call
            return unique(ar, *a, axis=axis, **k) if conc() else sym_call(unique, (ar, *a),
                                                                         dict(k, axis=axis))
        return ar[:1] if bool(ctx.bool("all_rows_equal")) else ar
    ctx.stub(np.unique, stub)


def process(ctx, n, nf, na, select, missing="x", source=True, feats=True, algos=True,
            scrambled=False):
    from instancespace.stages.preprocessing import PreprocessingInput, PreprocessingStage
    fn = ["feature_size", "feature_size_max", "Feature_Size", "feature_a"][:nf]
    an = ["algo_x 2", "algo_x", "ALGO_X"][:na]
    x = matrix(ctx, "x", n, nf, -9, 9, nan="x" in missing)
    y = matrix(ctx, "y", n, na, -9, 9, nan="y" in missing)
    X, Y = raw(x.copy()), raw(y.copy())
    if missing == "x0":       # only one feature has missing values
        for i in range(n):
            for j in range(1, nf):
                ctx.assume(Not(isnan(X[i, j])))
    if n > 2:
        few_rows(ctx)
    wf = subset(ctx, "feats", fn, True) if select and feats else None
    wa = subset(ctx, "algos", an, True) if select and algos else None
    # the last two instances have the same label
    labels = [f"i{k}" for k in range(n - 1)] + [f"i{max(n - 2, 0)}"]
    lab = pd.Series(labels)
    src = pd.Series([f"s{k}" for k in range(n)]) if source else None
    fsel = [f for f in fn if wf and f in wf] or fn
    asel = [a for a in an if wa and a in wa] or an
    fi, ai = [fn.index(f) for f in fsel], [an.index(a) for a in asel]
    # what should survive
    gone = [Or(And(*[isnan(X[i, j]) for j in fi]), And(*[isnan(Y[i, k]) for k in ai]))
            for i in range(n)]
    ctx.assume(Or(*[Not(g) for g in gone]))        # something is left to analyse
    keep = [i for i in range(n) if not bool(gone[i])]
    cols = [j for j in fi if 5 * sum(bool(isnan(X[i, j])) for i in keep) < len(keep)]
    o = PreprocessingStage._run(PreprocessingInput(list(fn), list(an), lab, src, x, y,
                                                   selvars(wf, wa)))
    ctx.check(np.bool_(list(o.algo_labels) == asel),
              "the requested algorithms are kept, under their own names, in order")
    ctx.check(np.bool_(list(o.feat_labels) == [fn[j] for j in cols]),
              "the requested features with fewer than 20% missing values are kept")
    ctx.check(np.bool_(list(o.inst_labels) == [labels[i] for i in keep]),
              "labels are those of the instances with some feature and some performance")
    ctx.check(np.bool_((o.s is None) if src is None else
                       (o.s is not None and list(o.s) == [f"s{i}" for i in keep])),
              "sources are those of the surviving instances")
    for nm, src_, js in (("x", X, cols), ("x_raw", X, cols), ("y", Y, ai), ("y_raw", Y, ai)):
        g = raw(getattr(o, nm))
        ok = g.shape == (len(keep), len(js))
        ctx.check(np.bool_(ok), f"{nm} has one row per surviving instance and column")
        if ok:
            ctx.check(And(*[eq(g[a, b], src_[i, j]) for a, i in enumerate(keep)
                            for b, j in enumerate(js)]),
                      f"{nm} holds each instance's values under their own name")
    ctx.reach()


HARNESSES = [
    H(process, [dict(n=2, nf=2, na=1, select=False, missing="xy"),
                dict(n=2, nf=2, na=2, select=False, missing="y", source=False),
                dict(n=3, nf=2, na=1, select=False, missing="xy"),
                dict(n=5, nf=2, na=1, select=False, missing="x0"),
                dict(n=6, nf=2, na=1, select=False, missing="x0"),
                dict(n=2, nf=3, na=1, select=True, missing="", algos=False),
                dict(n=2, nf=1, na=3, select=True, missing="", feats=False),
                dict(n=2, nf=2, na=2, select=True, missing="y", feats=False),
                dict(n=2, nf=2, na=2, select=True, missing="x", algos=False)],
      [dict(n=3, nf=2, na=1, select=False, missing="xy"),
       dict(n=4, nf=2, na=1, select=False, missing="x"),
       dict(n=3, nf=3, na=1, select=False, missing="x"),
       dict(n=7, nf=2, na=1, select=False, missing="x0"),
       dict(n=2, nf=2, na=2, select=True, missing="xy"),
       dict(n=2, nf=3, na=2, select=True, missing="x"),
       dict(n=11, nf=2, na=1, select=False, missing="x0")]),
]
BOUNDS = "up to 6 instances, 3 features, 3 algorithms, every pattern of missing values"
OUTSIDE = "tables in which no instance survives"
EXPLANATION = ("PreprocessingStage runs on symbolic features and performances with any pattern of "
               "missing values and symbolic column selections; kept rows and columns, and every "
               "cell, label and source of the output, must be those of the definition.")
ASSUMPTIONS = [("np.unique over rows (only counted for a message) returns one or all rows in the "
               "larger configurations")]
