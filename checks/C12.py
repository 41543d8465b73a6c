import os
import shutil
import tempfile

import sklearn.model_selection

from checks.prelim_common import *
from sx.run import H

PROPERTY = "C12"
LEVEL = "model_checking"
FIELDS = ("x", "y", "x_raw", "y_raw", "y_bin", "y_best", "p", "num_good_algos", "beta")


def data(ctx, n, nf, na, d1=False):
    x = matrix(ctx, "x", n, nf, -50, 50)
    y = matrix(ctx, "y", n, na, 1, 50)
    xr = matrix(ctx, "xraw", n, nf, -50, 50)
    yr = matrix(ctx, "yraw", n, na, -50, 50)
    return x, y, xr, yr


def same_rows(ctx, got, full, keep, label, data_dense=None):
    for f in FIELDS:
        g, w = raw(getattr(got, f)), raw(getattr(full, f))
        ctx.check(np.bool_(g.shape == (len(keep), *w.shape[1:])),
                  f"one row per surviving instance in {f}")
        if g.shape == (len(keep), *w.shape[1:]):
            ctx.check(And(*[eq(a, b) if f != "y_bin" and f != "beta" else Iff(a, b)
                            for i, k in enumerate(keep)
                            for a, b in zip(np.ravel(g[i]), np.ravel(w[k]))]),
                      f"surviving rows keep their {f}")


def all_checks(ctx, got, full, keep, n, what):
    same_rows(ctx, got, full, keep, what)
    lab = getattr(got, "inst_labels", None)
    ctx.check(np.bool_(lab is not None and list(lab) == [f"i{k}" for k in keep]),
              "instance labels handed on are those of the surviving instances")
    s = getattr(got, "s", None)
    ctx.check(np.bool_(s is not None and list(s) == [f"s{k}" for k in keep]),
              "sources are those of the surviving instances")


def twice(ctx, x, y, xr, yr, so, po):
    n = x.shape[0]
    kw = lambda: dict(x_raw=xr.copy(), y_raw=yr.copy(), s=labels(n, "s"))  # noqa: E731
    full = run(x.copy(), y.copy(), po, sopts(), **kw())
    got = run(x.copy(), y.copy(), po, so, **kw())
    return full, got


def nothing(ctx, n):
    x, y, xr, yr = data(ctx, n, 2, 2)
    full = run(x.copy(), y.copy(), popts(epsilon=ctx.real("eps", 0, 60)),
               sopts(), x_raw=xr.copy(), y_raw=yr.copy(), s=labels(n, "s"))
    for f, w in (("x", x), ("y", y), ("x_raw", xr), ("y_raw", yr)):
        ctx.check(eq_arr(getattr(full, f), w), f"without a selection {f} is unchanged")
    ctx.check(np.bool_(list(full.inst_labels) == [f"i{k}" for k in range(n)] and
                       list(full.s) == [f"s{k}" for k in range(n)] and
                       full.data_dense is None), "without a selection nothing is dropped")
    ctx.reach()


def only_one(ctx, got, dense):
    if dense:
        ctx.check(np.bool_(got.data_dense is None),
                  "a fraction or index file selection is not to be made again by density")


def fraction(ctx, n, dense=False):
    x, y, xr, yr = data(ctx, n, 1, 2)
    pick = [ctx.bool(f"pick{i}") for i in range(n)]
    rev = ctx.bool("reversed")
    chosen = [i for i in range(n) if bool(pick[i])]
    calls = []

    def split(*arrays, test_size=None, train_size=None, random_state=None, **k):
        calls.append((test_size, train_size))
        a = arrays[0]
        rest = [i for i in range(n) if i not in chosen]
        order = chosen[::-1] if bool(rev) else chosen
        return [a[np.array(rest, dtype=int)], a[np.array(order, dtype=int)]]
    ctx.stub(sklearn.model_selection.train_test_split, split)
    fr = ctx.real("fraction", 0.01, 0.99)
    so = sopts(small_scale_flag=True, small_scale=fr, density_flag=dense)
    full, got = twice(ctx, x, y, xr, yr, so, popts(epsilon=ctx.real("eps", 0, 60)))
    ctx.check(np.bool_(len(calls) <= 1), "one split")
    if calls:
        ctx.check(eq(calls[0][0], fr), "the selected part has the requested fraction")
    all_checks(ctx, got, full, chosen, n, "fraction")
    only_one(ctx, got, dense)
    ctx.reach()


def index_file(ctx, n, k, sep, dense=False, pad=0):
    d = tempfile.mkdtemp(prefix="sx12_")
    try:
        idx = [ctx.choose(f"number{i}", list(range(0, n + 3))) for i in range(k)]
        path = os.path.join(d, "idx.csv")
        with open(path, "w") as f:
            # further numbers are those of instances that do not exist
            f.write(sep.join(map(str, [n + 9] * pad + idx)) + "\n")
        x, y, xr, yr = data(ctx, n, 1, 2)
        so = sopts(file_idx_flag=True, file_idx=path, density_flag=dense)
        keep = [i for i in range(n) if i + 1 in idx]
        full, got = twice(ctx, x, y, xr, yr, so, popts(epsilon=ctx.real("eps", 0, 60)))
        all_checks(ctx, got, full, keep, n, "index file")
        only_one(ctx, got, dense)
        ctx.reach()
    finally:
        shutil.rmtree(d)


def density(ctx, n, t, absp=True, whole=False):
    from instancespace.utils.filter import filter_instance
    x, y, xr, yr = data(ctx, n, 1, 1)
    dist = ctx.choose("distance", [1, 2]) if whole else ctx.real("distance", 0.25, 4)
    so = sopts(density_flag=True, min_distance=dist, selvars_type=t)
    full, got = twice(ctx, x, y, xr, yr, so, popts(True, absp, ctx.real("eps", 0, 0.9)))
    excl, _, _ = filter_instance(full.x, full.y, full.y_bin, t, dist)
    keep = [i for i in range(n) if not bool(raw(excl)[i])]
    all_checks(ctx, got, full, keep, n, "density")
    dd = got.data_dense
    ctx.check(np.bool_(dd is not None), "the unfiltered data are handed on")
    if dd is not None:
        same_rows(ctx, dd, full, list(range(n)), "dense")
        ctx.check(np.bool_(list(dd.inst_labels) == [f"i{k}" for k in range(n)] and
                           list(dd.s) == [f"s{k}" for k in range(n)]),
                  "the unfiltered labels are handed on")
    ctx.reach()


TYPES = ("Ftr", "Ftr&AP", "Ftr&Good", "Ftr&AP&Good")
HARNESSES = [
    H(nothing, [dict(n=3)]),
    H(fraction, [dict(n=3), dict(n=2, dense=True)], [dict(n=4), dict(n=3, dense=True)]),
    H(index_file, [dict(n=3, k=2, sep=","), dict(n=2, k=1, sep=","),
                   dict(n=2, k=2, sep=",", dense=True), dict(n=2, k=2, sep="\n", pad=3000)],
      [dict(n=3, k=3, sep=","), dict(n=3, k=2, sep=","), dict(n=4, k=2, sep="\n"),
       dict(n=2, k=1, sep=",")]),
    H(density, [dict(n=3, t=t) for t in TYPES] + [dict(n=3, t="Ftr", whole=True)], [dict(n=3, t=t, absp=a) for t in TYPES
                                                 for a in (True, False)]),
]
BOUNDS = "3 instances, 1 to 2 features and algorithms; index files of up to 2 entries from 0 to n+2 (or these after 3000 entries of no instance)"
EXPLANATION = ("PrelimStage subsets symbolic instances by fraction, index file or density; every "
               "per-instance output must hold exactly the rows that are kept, in one common "
               "selection that satisfies the option.")
OUTSIDE = ("the random choice within a fraction (any subset of that size)")
ASSUMPTIONS = [("train_test_split returns some split of the asked size")]
