import multiprocessing
import os

from checks.trace_common import *
from sx.run import H

PROPERTY = "C21"
LEVEL = "model_checking"

STATS = ["area", "elements", "good_elements", "density", "purity"]


def order(ctx, na=3, cores=3, preempt=0, cpus=8):
    from instancespace.stages.trace import TraceInputs, TraceStage
    z = groups_of(5, n=3)
    n = len(z)
    # the hull of the instances an algorithm is best on is any set of their cells
    w = World(ctx, z, extra=0, pieces=0, free=lambda ids: len(ids) == 4 and set(ids))
    sel = np.array([-1 if i % 5 == 0 else i // 5 for i in range(n - 3)] + [0, 1, 2])
    Y = np.array([[i // 5 == a or (i // 5 == (a + 1) % 3 and i % 5 < 4) for a in range(na)]
                  for i in range(n - 3)] + [[True] * na] * 3)
    for a in range(na):
        assert w.clusters(sel == a) and w.clusters(Y[:, a])
    s = Tasks(ctx, w, preempt)
    ctx.stub(multiprocessing.cpu_count, lambda: cpus)
    ctx.stub(os.cpu_count, lambda: cpus)
    labels = ["one", "two", "three"][:na]
    try:
        out = TraceStage._run(TraceInputs(
            z, sel, sel, np.array([i % 2 == 0 for i in range(n)]), labels, Y, Y, topts(True),
            par(cores)))
    finally:
        s.kill()
    ctx.check(np.bool_(len(out.good) == na and len(out.best) == na),
              "a good and a best footprint per algorithm")
    ctx.check(np.bool_(list(out.trace_summary["Algorithm"]) == labels),
              "a summary row per algorithm, in order")
    for i in range(na):
        for what, f, who in (("Good", out.good[i], list(Y[:, i])),
                             ("Best", out.best[i], [v == i for v in sel])):
            want = w.footprint(w.clusters(who), who, 0.55)
            got = f.polygon.mask if type(f.polygon) is Region else [np.bool_(False)] * w.nc
            ctx.check(And(*[Iff(a, b) for a, b in zip(got, want)]),
                      f"{what.lower()} footprint i is that of algorithm i, in any order")
            ctx.check(eq(f.good_elements, count(w.points(want, who))),
                      f"the statistics of {what.lower()} footprint i are those of algorithm i")
            row = out.trace_summary.iloc[i]
            ctx.check(And(eq(row[f"Area_{what}"], w.area(want)), eq(row[f"Purity_{what}"],
                                                                    f.purity)),
                      f"summary row i shows the {what.lower()} footprint of algorithm i")
    ctx.reach()


HARNESSES = [H(order, [dict(na=3, cores=3), dict(na=2, cores=2, preempt=1),
                       dict(na=2, cores=8, preempt=2), dict(na=3, cores=1)],
               [dict(na=3, cores=2, preempt=1), dict(na=3, cores=3, preempt=2), dict(na=3, cores=4, preempt=3),
                dict(na=2, cores=2, preempt=3)])]
EXPLANATION = ("TraceStage._run is executed with the thread pool replaced by a scheduler whose "
               "choices (which task starts or continues next, where it is preempted, which "
               "finished task is handed over first) are symbolic; every footprint and summary row "
               "must be that of its algorithm, for arbitrary hulls of the instances.")
BOUNDS = ("2 or 3 algorithms, 1, 2, 3 or 8 workers, tasks preempted where a hull is computed and "
          "before and after statements changing anything shared, at most twice (3 times in the thorough tier) in all, 18 instances in three groups")
OUTSIDE = ("preemption inside a statement; processes instead of threads; failing tasks")
ASSUMPTIONS = ["workers take tasks in the order they were submitted"]
