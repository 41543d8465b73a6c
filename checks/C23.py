import math

from sx.spec import *
from sx.run import H

PROPERTY = "C23"
LEVEL = "model_checking"


def check_labels(ctx, near, k, got):
    m = len(near)
    ctx.check(np.bool_(len(got) == m), "a label for every object")
    r = [list(a) for a in near]
    for t in range(m):
        r = [[Or(r[i][j], And(r[i][t], r[t][j])) for j in range(m)] for i in range(m)]
    core = [count(near[i]) >= k + 1 for i in range(m)]
    dense = [Or(*[And(r[i][j], core[j]) for j in range(m)]) for i in range(m)]
    for i in range(m):
        ctx.check(Iff(eq(got[i], -1), Not(dense[i])),
                  "noise is what no chain of neighbours links to an object with enough of them")
        ctx.check(Implies(dense[i], got[i] >= 1), "clusters are numbered from one")
        for j in range(i):
            ctx.check(Implies(And(dense[i], dense[j]), Iff(eq(got[i], got[j]), r[i][j])),
                      "two objects share a cluster exactly when a chain of neighbours links them")
    top = mx(got)
    for c in range(1, m + 1):
        ctx.check(Implies(top >= c, Or(*[eq(g, c) for g in got])), "cluster numbers have no gaps")
    ctx.reach()


def line(ctx, m=4, k=2, given=True):
    from instancespace.stages.trace import TraceStage
    x = vector(ctx, "x", m, -100, 100)
    eps = ctx.real("radius", 0, 50)
    ctx.assume(eps > 0)
    for i in range(m):
        for j in range(i):
            ctx.assume(Not(eq(raw(x)[i], raw(x)[j])))
    v = list(raw(x))
    if not given:
        ctx.assume(eq(eps, (mx(v) - mn(v)) * k / (2 * m)))
        for i in range(m):
            for j in range(i):      # not on the border, where rounding decides
                d = absv(v[i] - v[j])
                ctx.assume(Or(d > eps * 1.001, d < eps * 0.999))
    got = TraceStage.dbscan(x.reshape(m, 1), k, eps if given else None)
    check_labels(ctx, [[absv(a - b) <= eps for b in v] for a in v], k, list(raw(got)))


PLANE = [(0.0, 0.0), (3.0, 4.0), (6.0, 8.0), (0.0, 13.0), (20.0, 0.0), (20.0, 2.0), (24.0, 0.0),
         (9.0, 12.0), (40.0, 40.0)]


def plane(ctx, m=7, k=2, moved=False, order=None):
    """Fixed positions (one of them moved along a line), any radius."""
    from instancespace.stages.trace import TraceStage
    z = np.empty((m, 2), dtype=object)
    for i in range(m):
        z[i] = [np.float64(c) for c in PLANE[(order or range(m))[i]]]
    if moved:
        z[m - 1, 0] = ctx.real("moved", -10, 30)
    eps = ctx.real("radius", 0, 60)
    ctx.assume(eps > 0)
    ok = []
    for i in range(m):
        row = []
        for j in range(m):
            d2 = (z[i, 0] - z[j, 0]) * (z[i, 0] - z[j, 0]) \
                + (z[i, 1] - z[j, 1]) * (z[i, 1] - z[j, 1])
            if i != j:          # not on the border, where rounding decides
                ctx.assume(Or(d2 > eps * eps + 0.001, d2 < eps * eps - 0.001))
            row.append(d2 <= eps * eps)
        ok.append(row)
    got = TraceStage.dbscan(finish(ctx, z, "f"), k, eps)
    check_labels(ctx, ok, k, list(raw(got)))


def radius(ctx, m=3, n=2, k=3):
    """Without a radius, the one at which k of m uniformly spread objects are expected."""
    from instancespace.stages.trace import TraceStage
    x = matrix(ctx, "x", m, n, -100, 100)
    e = TraceStage.epsilon(x, k)
    r = [mx(list(raw(x)[:, j])) - mn(list(raw(x)[:, j])) for j in range(n)]
    p = r[0]
    for v in r[1:]:
        p = p * v
    # volume of a ball of that radius is k/m of the volume of the ranges
    ball = {1: 2.0, 2: math.pi, 3: 4 * math.pi / 3}[n]
    v = e
    for _ in range(n - 1):
        v = v * e
    ctx.check(And(e >= 0, absv(v * ball * m - p * k) <= 1e-6 * (1 + p)),
              "a ball of the default radius is expected to hold k objects")
    ctx.reach()


def share(ctx, sure=0, maybe=8, positions=4):
    """The number of objects a group needs follows the number of instances in the set."""
    from instancespace.stages.trace import TraceStage
    n = sure + maybe
    y = np.empty(n, dtype=object)
    for i in range(n):
        y[i] = ctx.bool(f"in the set[{i}]") if i >= sure else np.bool_(True)
    total_ = total([If(b, 1, 0) for b in y[sure:]]) + sure
    x = np.array([[float(i), float(i * i)] for i in range(positions)])
    seen, estimated = [], []

    def dbscan(data, k, eps):
        seen.append((data, k, eps))
        return np.ones(positions)

    def epsilon(data, k):
        seen.append((data, k, 1.0))
        estimated.append(True)
        return 1.0

    ctx.stub(TraceStage.dbscan, dbscan)
    ctx.stub(TraceStage.epsilon, epsilon)
    TraceStage.run_dbscan(finish(ctx, y, "b"), x)
    ctx.check(np.bool_(len(seen) > 0), "the set is clustered")
    for data, k, eps in seen:       # by either of the two functions
        ctx.check(np.bool_(np.asarray(data).shape == x.shape and (np.asarray(data) == x).all()),
                  "the positions given are clustered")
        ctx.check(And(If(total_ <= 60, eq(k, 3),
                         If(total_ > 980, eq(k, 50),
                            And(20 * k >= total_, 20 * (k - 1) < total_)))),
                  "a twentieth of the instances, from 3 to 50, make a group dense")
        if estimated:
            ctx.check(np.bool_(eps is None or float(eps) == 1.0), "the default radius is used")
    ctx.reach()


HARNESSES = [H(share, [dict(), dict(sure=56), dict(sure=97), dict(sure=976)],
               [dict(sure=56, maybe=60, positions=20)]),
             H(line, [dict(m=4, k=1), dict(m=4, k=2), dict(m=5, k=3), dict(m=4, k=2, given=False)],
               [dict(m=5, k=1), dict(m=5, k=2), dict(m=6, k=3), dict(m=6, k=4)]),
             H(plane, [dict(k=2), dict(k=3), dict(m=4, k=2, moved=True)],
               [dict(m=9, k=3), dict(m=9, k=4), dict(m=8, k=2, order=[7, 4, 2, 5, 0, 6, 1, 3]),
                dict(m=5, k=2, moved=True), dict(m=5, k=3, moved=True, order=[4, 5, 6, 0, 1])]),
             H(radius, [dict(n=1), dict(n=2)], [dict(n=2, m=4, k=5)])]
EXPLANATION = ("TraceStage.dbscan is executed on objects with arbitrary coordinates on a line (and "
               "on fixed or partly moved positions in the plane) with any radius; the labels are "
               "compared with the transitive closure of the symbolic neighbour relation. "
               "TraceStage.epsilon is decided for arbitrary coordinates, and the number of "
               "objects TraceStage.run_dbscan asks for, for every set of instances.")
BOUNDS = ("up to 5 (6 in the thorough tier) distinct objects on a line, up to 7 (9) in the plane; "
          "1 to 4 neighbours; any radius; default radius in 1 and 2 dimensions; the number asked "
          "for with up to 984 instances of which 8 (60) are in the set or not")
OUTSIDE = ("objects at the same position (TRACE passes distinct ones); neighbours exactly on the "
           "radius in the plane, where rounding decides")
ASSUMPTIONS = ["coordinates are real numbers without rounding"]
