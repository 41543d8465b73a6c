import matplotlib
import matplotlib.cm
import matplotlib.figure
import matplotlib.pyplot as plt
from matplotlib.colors import Normalize

from checks.save_common import *
from sx.run import H

matplotlib.use("Agg")
PROPERTY = "C27"
LEVEL = "model_checking"

ALGS, FEATS = ["q", "p_1", "r"], ["c_x", "a"]


class Canvas:
    """Keeps what is drawn, under the name it is saved by.

    It stands in for matplotlib in symbolic runs; replays read the real figures."""

    def __init__(self, ctx):
        self.saved, self.conc = {}, ctx.mode == "conc"
        if not self.conc:
            ctx.stub(plt.subplots, self.subplots)
            ctx.stub(plt.clf, lambda: None)
            ctx.stub(plt.close, lambda *a: None)
            ctx.stub(Normalize, Norm)
            ctx.stub(matplotlib.cm.ScalarMappable, lambda *a, **k: None)

    def __enter__(self):
        self.savefig = matplotlib.figure.Figure.savefig
        if self.conc:
            matplotlib.figure.Figure.savefig = lambda fig, path, **k: self.save(
                path, ([q for c in fig.axes[0].collections for q in collection(c)] +
                       [(*q.get_data(), None, q.get_label(), None) for q in fig.axes[0].lines],
                       [[tuple(map(float, v)) for v in q.get_xy()] for q in fig.axes[0].patches]))

    def __exit__(self, *a):
        matplotlib.figure.Figure.savefig = self.savefig
        if self.conc:
            plt.close("all")

    def save(self, path, drawn):
        self.saved[os.path.basename(str(path))] = drawn

    def subplots(self, *a, **k):
        if a or k:
            raise Unsupported("several plots in a figure")
        f = Fig(self)
        return f, f.ax


class Norm:
    def __init__(self, vmin=None, vmax=None):
        self.vmin, self.vmax = vmin, vmax

    def __call__(self, v):
        return 0.5


class Fig:
    def __init__(self, canvas):
        self.canvas, self.ax = canvas, Ax()

    def suptitle(self, *a, **k):
        pass

    colorbar = tight_layout = set_size_inches = suptitle

    def savefig(self, path, **k):
        self.canvas.save(path, self.ax.drawn())


class Ax:
    def __init__(self):
        self.points, self.patches = [], []

    def set_xlim(self, *a, **k):
        pass

    set_ylim = set_xlabel = set_ylabel = set_title = legend = grid = set_aspect = set_xlim

    def scatter(self, x, y, s=None, c=None, *, label=None, norm=None, **k):
        self.points.append((x, y, c, label, norm))

    def add_patch(self, p):
        self.patches.append([tuple(map(float, q)) for q in p.get_xy()])

    def drawn(self):
        return list(self.points), list(self.patches)


def collection(c):
    at = np.asarray(c.get_offsets())
    v = c.get_array()
    v = None if v is None else np.ma.filled(np.ma.asarray(v, float), np.nan)
    return [(at[:, 0], at[:, 1], v, c.get_label(), Norm(c.norm.vmin, c.norm.vmax))]


def options(use_sim):
    from instancespace.data.options import InstanceSpaceOptions
    return InstanceSpaceOptions.from_dict({"trace": {"use_sim": use_sim}})


def polygon(k):
    return Polygon([(k, 0), (k + 1, 0), (k, 1)])


def holed(k):
    return Polygon(polygon(k).exterior.coords, [[(k + .2, .2), (k + .4, .2), (k + .2, .4)]])


def plots(ctx, n=3, what="features", use_sim=True, nan=False, algs=2, two=None):
    from instancespace.data import model as m
    names, k = ALGS[:algs], algs
    z = np.array([[0.5 * i - 1, (i - 1) ** 2 / 4] for i in range(n)])
    x = matrix(ctx, "x", n, 2, -1000, 1000, nan=nan) if what == "features" else np.eye(n, 2)
    y = matrix(ctx, "y", n, k, 0, 1000, nan=nan) if what == "performances" else np.eye(n, k)
    g = vector(ctx, "number good", n, 0, k) if what == "number" else np.arange(n) % (k + 1)
    alternating = np.array([[(i + j) % 2 == 0 for j in range(k)] for i in range(n)])
    y_bin = bmatrix(ctx, "good", n, k) if what == "good" else alternating
    y_hat = bmatrix(ctx, "predicted", n, k) if what == "predicted" else ~alternating
    beta = bvector(ctx, "beta", n) if what == "beta" else alternating[:, 0]
    p = ivector(ctx, "best", n, 1, k) if what == "best" else np.arange(n) % k + 1
    sel = ivector(ctx, "selected", n, 0, k) if what == "selected" else np.arange(n) % (k + 1)
    src = None
    if what == "sources":
        src = pd.Series([ctx.choose(f"source[{i}]", ["s1", "s2"]) for i in range(n)])
    good = [polygon(10 + j) for j in range(k)]
    best = [polygon(20 + j) for j in range(k)]
    if two is not None:
        good[two] = MultiPolygon([good[two], polygon(30), holed(50)])
        best[two] = MultiPolygon([best[two], polygon(40), holed(60)])
        good[1 - two] = best[1 - two] = None
    mo = make(ctx, data=data(inst_labels=labels(n), feat_labels=list(FEATS),
                             algo_labels=list(names), x=x, y=np.arange(1.0 * n * k).reshape(n, k) ** 2,
                             y_raw=y, y_bin=y_bin,
                             p=p, num_good_algos=g, beta=beta, s=src),
              pilot=blank(m.PilotOut, z=z), pythia=blank(m.PythiaOut, y_hat=y_hat,
                                                         selection0=sel),
              trace=blank(m.TraceOut, best=[footprint(s) for s in best],
                          good=[footprint(s) for s in good]), opts=options(use_sim))
    canvas = Canvas(ctx)
    with Folder(ctx) as f, canvas:
        mo.save_graphs(f.path)
    at = {tuple(map(float, q)): i for i, q in enumerate(z)}

    def get(name):
        ctx.check(np.bool_(name in canvas.saved), "each plot is saved")
        return canvas.saved.get(name)

    def where(pts):
        xs, ys = np.asarray(pts[0]).ravel(), np.asarray(pts[1]).ravel()
        return [at.get((float(a), float(b))) for a, b in zip(xs, ys, strict=True)]

    def values(name):
        """The drawn value of each instance."""
        d = get(name)
        if d is None:
            return None
        out = {}
        for q in d[0]:
            w = where(q)
            c = np.asarray(q[2], dtype=object).ravel()
            ctx.check(np.bool_(len(c) == len(w) and None not in w and not set(w) & set(out)),
                      "each instance is drawn once at its place")
            if len(c) != len(w):
                return None
            out.update(zip(w, c))
            if isinstance(q[4], Norm) and q[4].vmin is not None:
                ctx.check(And(*[Or(isnan(v), And(le(q[4].vmin, v), le(v, q[4].vmax)))
                                for v in c]), "the colour range covers the values")
        ctx.check(np.bool_(set(out) == set(range(n))), "each instance is drawn once at its place")
        return [out[i] for i in range(n)] if set(out) == set(range(n)) else None

    def classes(name, want, none=False):
        """want(i, label): whether instance i belongs to the group with this label."""
        d = get(name)
        if d is None:
            return
        seen = []
        for q in d[0]:
            w = where(q)
            seen += w
            ctx.check(And(*[want(i, q[3]) for i in w if i is not None]),
                      "instances are drawn in their own group")
        ctx.check(np.bool_(sorted(seen, key=str) == list(range(n))),
                  "each instance is drawn once at its place")

    def scaled(cols, vals):
        """cols: the drawn values by column, scaled together; vals: what they show."""
        cells = [(c[i], v[i]) for c, v in zip(cols, vals) for i in range(n)]
        for c, v in cells:
            here = Not(isnan(v))
            ctx.check(Iff(here, Not(isnan(c))), "missing values are drawn as missing")
            ctx.check(Implies(here, And(ge(c, 0), le(c, 1))), "values are scaled to 0 to 1")
            for d, w in cells:
                if d is not c:
                    ctx.check(Implies(And(here, Not(isnan(w)), v <= w), le(c, d)),
                              "larger values are drawn larger")
            least = And(here, *[Or(isnan(w), v <= w) for _, w in cells])
            most = And(here, *[Or(isnan(w), v >= w) for _, w in cells])
            ctx.check(Implies(least, eq(c, 0)), "the smallest value is drawn as 0")
            ctx.check(Implies(And(most, Not(least)), eq(c, 1)), "the largest value is drawn as 1")

    if what == "features":
        for j, s in enumerate(FEATS):
            c = values(f"distribution_feature_{s}.png")
            if c is not None:
                scaled([c], [raw(x)[:, j]])
    if what == "performances":
        cs = []
        for j, s in enumerate(names):
            c = values(f"distribution_performance_individual_normalized_{s}.png")
            if c is not None:
                scaled([c], [raw(y)[:, j]])
            cs.append(values(f"distribution_performance_global_normalized_{s}.png"))
        if all(c is not None for c in cs):
            scaled(cs, list(raw(y).T))
    if what == "number":
        c = values("distribution_number_good_algos.png")
        if c is not None:
            ctx.check(And(*[eq(c[i] * k, g[i]) for i in range(n)]),
                      "the fraction of good algorithms is drawn")

    def sides(b):
        return lambda i, s: {"GOOD": eq(b[i], True), "BAD": eq(b[i], False)}.get(s, np.bool_(False))

    def members(q):
        return lambda i, s: eq(q[i], (["None"] + [a.replace("_", " ") for a in names]).index(s)) \
            if s in ["None"] + [a.replace("_", " ") for a in names] else np.bool_(False)

    def outlines(s):
        return sorted(sorted(set(g.exterior.coords)) for g in getattr(s, "geoms", [s])) if s else []

    foot = y_hat if use_sim else y_bin
    if what in ("good", "predicted"):
        for j, s in enumerate(names):
            classes(f"binary_performance_{s}.png", sides(y_bin[:, j]))
            classes(f"binary_svm_{s}.png", sides(y_hat[:, j]))
            classes(f"footprint_{s}.png", sides(foot[:, j]))
    if what in ("best", "selected"):
        classes("distribution_portfolio.png", members(p))
        classes("distribution_svm_portfolio.png", members(sel))
        classes("footprint_portfolio.png", members(sel if use_sim else p))
    if what == "beta":
        classes("distribution_beta_score.png", sides(beta))
    if what == "sources":
        classes("distribution_sources.png", lambda i, s: np.bool_(src[i] == s))
    for j, s in enumerate(names):
        d = get(f"footprint_{s}.png")
        if d is not None:
            drawn = sorted(sorted(set(q)) for q in d[1])
            some = Or(*[eq(foot[i, j], True) for i in range(n)])
            ctx.check(If(some, np.bool_(drawn == outlines(good[j])), np.bool_(drawn == [])),
                      "the footprint of the algorithm is drawn")
    d = get("footprint_portfolio.png")
    if d is not None:
        drawn = sorted(sorted(set(q)) for q in d[1])
        pf = sel if use_sim else p
        chosen = [bool(Or(*[eq(pf[i], j + 1) for i in range(n)])) for j in range(k)]
        want = sorted(o for j in range(k) if chosen[j] for o in outlines(best[j]))
        ctx.check(np.bool_(drawn == want), "the best footprints of chosen algorithms are drawn")
    ctx.reach()


def labels(n):
    return pd.Series([f"inst {i}" for i in range(n)])


HARNESSES = [H(plots, [
    dict(), dict(what="features", n=2, nan=True), dict(what="performances", n=2),
    dict(what="performances", n=2, nan=True, use_sim=False), dict(what="number"),
    dict(what="good", n=2), dict(what="predicted", n=2), dict(what="good", n=2, use_sim=False),
    dict(what="best", use_sim=False), dict(what="best", two=1, use_sim=False),
    dict(what="selected"), dict(what="selected", two=0, n=2), dict(what="beta"),
    dict(what="selected", n=2, algs=3), dict(what="sources")],
    [dict(n=5), dict(what="features", n=4, nan=True), dict(what="performances", n=3),
     dict(what="performances", n=3, nan=True), dict(what="good", n=4),
     dict(what="predicted", n=4), dict(what="best", n=5, algs=3, use_sim=False),
     dict(what="selected", n=4, algs=3), dict(what="sources", n=6), dict(what="beta", n=8)])]
EXPLANATION = ("A model with symbolic contents is plotted on a stand-in for matplotlib that keeps "
               "what is drawn; every plot must show each instance once, at its place, with its "
               "own scaled value or in its own group, and the footprints of its own algorithm.")
BOUNDS = ("2-3 instances, 2 features, 2-3 algorithms; one part of the model symbolic at a time "
          "(features, performances in [0, 1000] or missing, classes, selections, sources), the "
          "others fixed; thorough: up to 8 instances")
OUTSIDE = ("how matplotlib renders what it is given; titles, colours and axis limits; "
           "performances below 0, whose logarithm does not exist")
ASSUMPTIONS = ["log10 is some strictly increasing function through (1, 0)"]
