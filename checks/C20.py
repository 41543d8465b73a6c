from checks.trace_common import *
from checks.prelim_common import popts, run as prelim_run
from sx.run import H

PROPERTY = "C20"
LEVEL = "model_checking"

COLS = ["Area_{}", "Area_{}_Normalised", "Density_{}", "Density_{}_Normalised", "Purity_{}"]


def bits(ctx, name, base, free):
    """base with the entries at `free` symbolic."""
    o = np.empty(len(base), dtype=object)
    o[:] = [np.bool_(b) for b in base]
    for i in free:
        o[i] = ctx.bool(f"{name}[{i}]")
    return finish(ctx, o, "b")


def concrete(v):
    return [bool(b) for b in raw(v)]


def stats(ctx, vary, flip=2, sim=True, na=2, extra=1, gaps=(), scale=1):
    """vary: whose region is arbitrary and who is good there."""
    from instancespace.stages.trace import TraceInputs, TraceStage
    z = two_sides()
    n = len(z)
    left, right = {0, 1, 2, 3, 4}, {5, 6, 7, 8}     # cells
    # 0-4 left, 5-9 right, 10 and 11 far away (they belong to no cluster)
    y = [[True] * 5 + [False] * 5 + [True, False], [False] * 5 + [True] * 5 + [False, True],
         [i % 3 != 1 for i in range(n)]][:na]
    beta = [i >= 5 for i in range(n - 1)] + [False]
    sel = [0] * 5 + [1] * 5 + [0, 1]
    if vary == "good":
        y[0][5:8] = [True] * 3
        free = lambda ids: 4 not in ids and set(ids) <= left
        y[0][4] = False
    elif vary == "space":
        free = lambda ids: set(ids) == left
        y[0][0] = False
        sel[0] = -1
    elif vary == "best":
        y[1][5] = False
        y[0] = [False] * 12
        sel[0] = -1
        # the other footprint is on the right
        free = lambda ids: set(ids) <= left and 0 not in ids and set(range(w.nc)) - right
    elif vary == "hard":
        free = lambda ids: set(ids) <= left
        y[0] = [True] * n
        sel = [0] * n
    w = World(ctx, z, extra=extra, pieces=0, free=free, gaps=gaps,
              scale=scale)
    who = {"good": y[0], "best": [v == 0 for v in sel], "space": [True] * n,
           "hard": [not v for v in beta]}[vary]
    assert any(w.free(ids) for ids in w.clusters(who)), vary
    y = [bits(ctx, f"good{i}", v, range(flip) if (vary, i) == ("good", 0) else [])
         for i, v in enumerate(y)]
    b = bits(ctx, "beta", beta, range(flip) if vary == "hard" else [])
    o = np.empty(n, dtype=object)
    o[:] = sel
    if vary == "best":
        for i in range(1, 1 + flip):
            o[i] = ctx.int(f"selected[{i}]", -1, na - 1)
    s = finish(ctx, o, "i")
    Y = np.empty((n, na), dtype=object)
    for i in range(na):
        Y[:, i] = list(raw(y[i]))
    Y = finish(ctx, Y, "b")
    other, osel = ~Y, np.zeros(n, dtype=int)
    labels = ["one", "two", "three"][:na]
    out = TraceStage._run(TraceInputs(
        z, s if sim else osel, osel if sim else s, b, labels, Y if sim else other,
        other if sim else Y, topts(sim), par()))
    ctx.check(np.bool_(len(out.good) == na and len(out.best) == na),
              "one good and one best footprint per algorithm")
    rows = out.trace_summary
    ctx.check(np.bool_(list(rows["Algorithm"]) == labels), "a summary row per algorithm, in order")
    sp = check_stats(ctx, w, out.space, [True] * n, "the space")
    check_stats(ctx, w, out.hard, [not v for v in concrete(b)], "the beta footprint")
    area = w.area(sp)
    dens = out.space.density
    for i in range(na):
        for what, f, good in (("Good", out.good[i], concrete(y[i])),
                              ("Best", out.best[i], [int(v) == i for v in raw(s)])):
            check_stats(ctx, w, f, good, f"the {what.lower()} footprint")
            if type(f.polygon) is Region:
                src = {c for ids in f.polygon.origin for c in ids}
                ctx.check(np.bool_(src <= {w.at[j] for j in range(n) if good[j]}),
                          f"the {what.lower()} footprint is that of its own instances")
            got = [rows[c.format(what)].iloc[i] for c in COLS]
            ctx.check(eq(got[0], f.area), "the summary shows the area")
            ctx.check(eq(got[2], f.density), "the summary shows the density")
            ctx.check(eq(got[4], f.purity), "the summary shows the purity")
            ctx.check(If(eq(area, 0), eq(got[1], f.area), eq(got[1] * area, f.area)),
                      "the summary area is normalised by that of the space")
            ctx.check(If(eq(dens, 0), eq(got[3], f.density), eq(got[3] * dens, f.density)),
                      "the summary density is normalised by that of the space")
    ctx.reach()


def measured(ctx, flip=2):
    """PRELIM's best algorithms given to TRACE, as the pipeline does."""
    from instancespace.stages.trace import TraceInputs, TraceStage
    z = two_sides()
    n = len(z)
    w = World(ctx, z, extra=0, pieces=0, free=lambda ids: False)
    y = np.empty((n, 2), dtype=object)
    for i in range(n):
        y[i] = [np.float64(0.9 - i / 100), np.float64(0.1)] if i < 5 or i == 10 \
            else [np.float64(0.1), np.float64(0.9 - i / 100)]
    for i in range(flip):
        y[i, 0] = ctx.real(f"performance[{i}]", 0, 1)
        ctx.assume(Or(y[i, 0] > 0.2, y[i, 0] < 0.05))
    best = [0 if bool(y[i, 0] > y[i, 1]) else 1 for i in range(n)]
    y = finish(ctx, y, "f")
    pre = prelim_run(np.array([[i, i * i % 7] for i in range(n)], dtype=float), y,
                     popts(epsilon=0.3))
    out = TraceStage._run(TraceInputs(
        z, np.full(n, -1), pre.p, pre.beta, ["one", "two"], ~pre.y_bin, pre.y_bin,
        topts(False), par()))
    ctx.reach()
    for i in range(2):
        f = out.best[i]
        mask = f.polygon.mask if type(f.polygon) is Region else [np.bool_(False)] * w.nc
        sel = [b == i for b in best]
        ctx.check(And(*[Iff(a, b) for a, b in zip(mask, w.footprint(w.clusters(sel), sel, 0.55))]),
                  "measured best footprints belong to the algorithm that performs best")
    ctx.check(np.bool_(len(out.good) == 2), "a footprint per algorithm")


HARNESSES = [H(stats, [dict(vary=v, sim=s) for v, s in (("good", True), ("space", False),
                                                         ("best", False), ("hard", True))] +
               [dict(vary="hard", flip=0, gaps=(3, 6, 9))] +
               [dict(vary="space", flip=0, scale=1e-3)],
               [dict(vary=v, sim=s, flip=4, extra=3, na=3)
                for v, s in (("good", False), ("space", True), ("best", True), ("hard", False))]),
             H(measured, [dict()], [dict(flip=4)])]
EXPLANATION = ("TraceStage._run is executed on twelve instances in two groups. Region operations "
               "(hull, triangles, union, difference, buffer, containment) are replaced by exact "
               "set operations over one cell per distinct position and cells without instances; "
               "the hull of the instances under test is an arbitrary set of cells, so the solver "
               "decides the statistics for every region and every choice of good instances.")
BOUNDS = ("twelve instances (two at one place), 2 algorithms (3 in the thorough tier), arbitrary "
          "hulls over at most 10 cells, 2 (4) instances of arbitrary class per footprint, "
          "measured and predicted mode")
OUTSIDE = "shapely's and alphashape's geometry; purity trimming (C26) and contradictions (C24)"
ASSUMPTIONS = ["buffering a region out and back adds any of some cells (or none), simplifying it none",
               "tasks of the thread pool run one after another (any order is C21's)"]
