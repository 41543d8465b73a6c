from checks.trace_common import *
from sx.run import H

PROPERTY = "C24"
LEVEL = "model_checking"


def mask_of(w, f):
    return f.polygon.mask if type(f.polygon) is Region else [np.bool_(False)] * w.nc


def same(a, b):
    return And(*[Iff(x, y) for x, y in zip(a, b)])


def contest(ctx, own=2, others=2, refit=1, un=1, extra=1, pieces=0, multi=False, per=4, algs=(0, 1),
            na=2):
    """own, others: instances of the other algorithm each footprint may cover."""
    from instancespace.stages.trace import TraceInputs, TraceStage
    z = np.array([*groups_of(per), *[(20.0 + i, 1.0) for i in range(un)]])
    n = len(z)
    sel = [0] * per + [1] * per + [0, 1] + [-1] * un
    sel = [algs[v] if v >= 0 else v for v in sel]
    left, right = list(range(per)), list(range(per, 2 * per))
    w = World(ctx, z, extra=extra, pieces=pieces, multi=multi,
              free=lambda ids: len(ids) <= per and may[tuple(ids)], must=lambda ids: ids)
    more = list(range(2 * per + 2, w.nc))

    class May(dict):
        def __missing__(self, ids):
            mine = set(left) if set(ids) <= set(left) else set(right)
            k = (own if mine == set(left) else others) if len(ids) == per else refit
            return {c for c in [*([*right] if mine == set(left) else [*left])[:k], *more]}
    may = May()
    s = np.array(sel)
    out = TraceStage._run(TraceInputs(
        z, s, s, np.full(n, True), ["one", "two", "three"][:na],
        np.zeros((n, na), bool), np.zeros((n, na), bool), topts(True), par()))
    who = [[v == a for v in sel] for a in algs]
    assert all(map(w.clusters, who))
    before = [w.footprint(w.clusters(q), q, 0.55) for q in who]
    after = [mask_of(w, out.best[a]) for a in algs]
    for a in range(na):
        check_stats(ctx, w, out.best[a], [v == a for v in sel], "a best footprint")
    both = [And(x, y) for x, y in zip(*before)]
    inside = [count(w.points(both, q)) for q in who]
    ctx.check(Implies(Or(Not(Or(*both)), eq(inside[0], inside[1])),
                      And(same(before[0], after[0]), same(before[1], after[1]))),
              "footprints that do not meet, or tie where they meet, are left as they are")
    rest = [And(x, y) for x, y in zip(*after)]
    left_in = [count(w.points(rest, q)) for q in who]
    ctx.check(Or(Not(Or(*rest)), eq(left_in[0], left_in[1])),
              "no area in which one algorithm is purer stays in both footprints")
    for a in range(2):
        b = 1 - a                       # a wins
        won = inside[a] > inside[b]
        if not bool(won):
            continue
        parts = [[And(x, Not(y)) for x, y in zip(before[b], both)]]
        if multi:
            m = w._mask("parts")
            parts = [[And(x, y) for x, y in zip(parts[0], m)],
                     [And(x, Not(y)) for x, y in zip(parts[0], m)]]
        groups = []
        for p in parts:
            ids = sorted({w.at[i] for i in range(n) if who[b][i] and bool(p[w.at[i]])})
            if len(ids) >= 3:
                groups.append(ids)
        new = w.footprint(groups, who[b], 0.55)
        meet = Or(*[And(x, y) for x, y in zip(new, before[a])])
        ctx.check(Or(meet, And(same(after[a], before[a]), same(after[b], new))),
                  "the purer footprint is kept and the other refitted to its points outside "
                  "the contested area")
    ctx.reach()


HARNESSES = [H(contest, [dict(own=2, others=1), dict(own=3, others=2, un=2, algs=(1, 0)),
                         dict(own=2, others=1, multi=True), dict(own=1, others=2, un=0, na=3,
                                                                 algs=(0, 2)),
                         dict(own=1, others=1, pieces=1, un=0, extra=0),
                         dict(per=5, own=3, others=2), dict(per=5, own=2, others=1, multi=True)],
               [dict(own=2, others=2, pieces=1, un=0, extra=0), dict(per=5, own=4, others=3, un=2),
                dict(per=5, own=3, others=3, refit=2, extra=2), dict(own=2, others=2, na=3, un=2,
                                                                     algs=(2, 1)),
                dict(own=1, others=1, pieces=1, multi=True, un=1, extra=0)])]
EXPLANATION = ("TraceStage._run is executed on two groups of instances whose best footprints may "
               "overlap. Regions are exact sets of cells; the hull of any set of instances is its "
               "own cells plus an arbitrary choice of the other algorithm's cells, of cells of "
               "unselected instances and of empty cells, and what is left after trimming may fall "
               "into two arbitrary parts. The solver decides who keeps, who is refitted and that "
               "nothing contested stays, for every overlap.")
BOUNDS = ("two overlapping footprints of 4 or 5 instances each (third algorithm without "
          "footprint), up to 3 (4) instances of the other algorithm covered, up to 2 instances "
          "nobody is best on, 1 (2) empty cells, at most one triangle per hull")
OUTSIDE = "shapely's and alphashape's geometry; three footprints overlapping in one place"
ASSUMPTIONS = ["a hull contains its own points",
               "buffering a region out and back and simplifying it leave it unchanged",
               "tasks of the thread pool run one after another (any order is C21's)"]
