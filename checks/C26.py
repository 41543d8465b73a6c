from checks.trace_common import *
from sx.run import H

PROPERTY = "C26"
LEVEL = "model_checking"


def build(ctx, flip=1, pieces=1, sim=True, use="good", per=5, inner=2, dup=False,
          small=False):
    """The footprint of instances in two groups (and one far away) of which some may be chosen."""
    from instancespace.stages.trace import TraceInputs, TraceStage
    z = np.array([*groups_of(per), (20.0, 1.0), (21.0, 1.0)])
    if dup:
        z[per + 1] = z[per + 2]
    n = len(z)
    left, right = set(range(per)), set(range(per, 2 * per))
    # (small: triangles may be without any instance)
    # hulls and triangles over the first cells of each group and those of the others
    some = {*range(inner), *range(per, per + inner), 2 * per + 2}
    w = World(ctx, z, extra=1, pieces=pieces, free=lambda ids: some | ({w.nc - 1} if small else {2 * per + 3}),
              must=lambda ids: [c for c in ids if c not in some])
    tri = w.pieces_of
    w.pieces_of = lambda ids: [[b if c in some or small and c == w.nc - 1 else np.bool_(c in ids and c not in some and not small)
                                for c, b in enumerate(m)] for m in tri(ids)]
    who = [i < 2 * per or i == 2 * per for i in range(n)]
    assert len(w.clusters(who)) == 2
    o = np.empty(n, dtype=object)
    o[:] = [np.bool_(v) for v in who]
    for i in range(flip):
        o[i] = ctx.bool(f"chosen[{i}]")
    who = [bool(b) for b in o]
    purity = ctx.real("purity threshold", 0, 1)
    none = np.zeros((n, 1), bool)
    Y, sel, beta = none, np.full(n, -1), np.full(n, True)
    if use == "good":
        Y = np.array(who)[:, None]
    elif use == "best":
        sel = np.array([0 if b else -1 for b in who])
    else:
        beta = ~np.array(who)
    out = TraceStage._run(TraceInputs(
        z, sel if sim else np.full(n, -1), np.full(n, -1) if sim else sel, beta, ["one"],
        Y if sim else ~Y, ~Y if sim else Y, topts(sim, purity), par(1)))
    f = {"good": out.good, "best": out.best, "hard": [out.hard]}[use][0]
    got = f.polygon.mask if type(f.polygon) is Region else [np.bool_(False)] * w.nc
    want = w.footprint(w.clusters(who), who, purity)
    ctx.check(And(*[Iff(a, b) for a, b in zip(got, want)]),
              "a footprint is the hulls of its dense groups without impure triangles")
    sp = w.footprint(w.clusters([True] * n), [True] * n, purity)
    got = out.space.polygon.mask if type(out.space.polygon) is Region \
        else [np.bool_(False)] * w.nc
    ctx.check(And(*[Iff(a, b) for a, b in zip(got, sp)]),
              "the space is the hulls of the dense groups of all instances")
    ctx.reach()


def few(ctx, k=3):
    """Instances at k distinct positions, chosen among several."""
    from instancespace.stages.trace import TraceInputs, TraceStage
    z = np.array([*groups_of(5), (0.0, 0.0), (0.1, 0.2), (0.0, 0.0)])
    n = len(z)
    w = World(ctx, z, extra=1, pieces=0)
    who = [bool(ctx.bool(f"chosen[{i}]")) if i < k or i >= n - 3 else False for i in range(n)]
    Y = np.array(who)[:, None]
    out = TraceStage._run(TraceInputs(
        z, np.array([0 if b else -1 for b in who]), np.full(n, -1), np.full(n, True), ["one"], Y,
        ~Y, topts(True), par(1)))
    distinct = len({w.at[i] for i in range(n) if who[i]})
    for f in (out.good[0], out.best[0]):
        got = f.polygon.mask if type(f.polygon) is Region else [np.bool_(False)] * w.nc
        want = w.footprint(w.clusters(who), who, 0.55)
        ctx.check(And(*[Iff(a, b) for a, b in zip(got, want)]),
                  "a footprint is the hulls of its dense groups")
        if distinct < 3:
            ctx.check(Not(Or(*got)), "fewer than three positions have no footprint")
            ctx.check(And(eq(f.area, 0), eq(f.density, 0), eq(f.purity, 0), eq(f.elements, 0),
                          eq(f.good_elements, 0)), "no footprint has zero statistics")
    ctx.reach()


def many(ctx, extra=1):
    """Sixty instances or more: a group of four is dense for sixty, not for sixty-one."""
    from instancespace.stages.trace import TraceInputs, TraceStage
    a = [(0.01 * (i % 8), 0.01 * (i // 8)) for i in range(55)]
    b = [(30 + x, y) for x, y in [(0, 0), (0.1, 0.2), (0.05, 0.1), (0.0, 0.15)]]
    z = np.array([*a, *b, (0, 50.0), *[(40.0 + i, 80.0 + 7 * i) for i in range(extra)]])
    n = len(z)
    w = World(ctx, z, extra=1, pieces=0, free=lambda ids: len(ids) < 8)
    who = [True] * 60 + [bool(ctx.bool(f"chosen[{i}]")) for i in range(60, n)]
    out = TraceStage._run(TraceInputs(
        z, np.full(n, -1), np.full(n, -1), np.full(n, True), ["one"], np.array(who)[:, None],
        np.zeros((n, 1), bool), topts(True), par(1)))
    assert len(w.clusters([True] * 60 + [False] * extra)) == 2
    assert len(w.clusters([True] * 61 + [False] * (extra - 1))) == 1
    want = w.footprint(w.clusters(who), who, 0.55)
    f = out.good[0]
    got = f.polygon.mask if type(f.polygon) is Region else [np.bool_(False)] * w.nc
    ctx.check(And(*[Iff(x, y) for x, y in zip(got, want)]),
              "a group is dense when it has a twentieth of the instances around one of its own")
    ctx.reach()


HARNESSES = [H(build, [dict(), dict(use="best", sim=False), dict(use="hard", dup=True),
                       dict(flip=3, pieces=0), dict(pieces=2, flip=0, inner=1),
                       dict(flip=0, small=True)],
               [dict(flip=3, inner=3), dict(use="best", flip=2, pieces=2),
                dict(use="hard", sim=False, flip=2, dup=True)]),
             H(few, [dict(k=2)], [dict(k=5)]), H(many, [dict()], [dict(extra=4)])]
EXPLANATION = ("TraceStage._run is executed with regions as exact sets of cells: hulls and "
               "triangles of any instances cover an arbitrary choice of cells, the purity "
               "threshold is any number and the set of instances is symbolic. The footprint must "
               "equal the union of the hulls of the dense groups (found independently) minus the "
               "triangles of low purity.")
BOUNDS = ("13 instances in two groups of five and three far away, up to 3 of them chosen freely, "
          "0 to 2 triangles per hull, any threshold in [0, 1]; up to 65 instances for the number "
          "of neighbours")
OUTSIDE = "shapely's and alphashape's geometry; more than two dense groups"
ASSUMPTIONS = ["buffering a region out and back and simplifying it leave it unchanged",
               "tasks of the thread pool run one after another (any order is C21's)"]
