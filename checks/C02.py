from checks.C01 import fixpoint, signatures
from checks.stage_common import *
from sx.run import H

PROPERTY = "C02"
LEVEL = "model_checking"


def both(a, xs, ys):
    return And(member(a, xs), member(a, ys))


def accepted(ctx, n, st, waves, init, ins, outs):
    w = wave_of(waves)
    for s in range(n):
        for t in range(n):
            if s == t or st[s] not in w or st[t] not in w:
                continue
            if w[st[s]] == w[st[t]]:
                if s < t:
                    ctx.check(Not(Or(*[member(a, outs[t]) for a in outs[s]])),
                              "no two stages of a wave produce the same value")
                ctx.check(Not(Or(*[member(a, ins[t]) for a in outs[s]])),
                          "no stage of a wave consumes a value another one of it produces")
            # s rewrites a value t consumes, t is not later: s could not have run by then
            if w[st[t]] <= w[st[s]]:
                k = w[st[t]]
                have = [np.bool_(True)] + [
                    Or(member(a, init), *[member(a, outs[u]) for u in range(n) if w[st[u]] < k])
                    for a in ins[s]]
                rewrites = Or(*[both(a, outs[s], ins[t]) for a in ins[s]])
                ctx.check(Not(And(rewrites, *have)),
                          "a rewriting stage runs before the other consumers runnable with it")


def conflicts(ctx, n, nin, nout, nn, orders_all=False):
    names = ["a", "b", "c"][:nn]
    init, ins, outs = signatures(ctx, n, nin, nout, names, True)
    if orders_all:
        h = orders(ctx, n)
    else:
        h = list(range(n)) if not bool(ctx.bool("rev")) else list(range(n))[::-1]
    st = [make_stage(f"S{s}", ins[s], outs[s], h[s]) for s in range(n)]
    waves, err, _ = build(st, arg_set(init))
    if waves is not None:
        accepted(ctx, n, st, waves, init, ins, outs)
    ctx.reach()


def one_rewriter(ctx, n, nin):
    """One stage rewrites "a"; every other output is a new value."""
    names = ["a", "b", "c"][:max(2, nin)]
    late = bool(ctx.bool("late"))           # the rewritten value is itself produced by S1
    init = [(nm, fixed_type(ctx, 0)) for nm in names]
    x = ("a", fixed_type(ctx, 4 if late else 0))
    ins = [[x] + [(names[i], arg_type(ctx, f"in0.{i}", 0, n + 1)) for i in range(1, nin)]]
    outs = [[x]]
    for s in range(1, n):
        ins.append([(names[i], arg_type(ctx, f"in{s}.{i}", 0, n + 1)) for i in range(nin)])
        outs.append([x] if late and s == 1 else [(names[1], fixed_type(ctx, s))])
    if late:
        ctx.assume(Not(member(x, ins[1])))
    for s in range(1, n):
        for a in outs[s]:
            ctx.assume(Not(member(a, ins[s])))
    h = orders(ctx, n)
    st = [make_stage(f"S{s}", ins[s], outs[s], h[s]) for s in range(n)]
    waves, err, _ = build(st, arg_set(init))
    run = fixpoint(n, init, ins, outs)
    ctx.check(Iff(np.bool_(waves is not None), And(*run)),
              "with a single rewriting stage a collection is accepted exactly when an order exists")
    if waves is not None:
        accepted(ctx, n, st, waves, init, ins, outs)
    ctx.reach()


def rewriters(ctx, n, m, third=False):
    """Stages 0..m-1 each rewrite an initial value of their own; the others make new values."""
    names = ["a", "b", "c"][:max(m, 2)] + (["d"] if third else [])
    own = [(names[s], fixed_type(ctx, s)) for s in range(m)]
    init = own + [(nm, fixed_type(ctx, 50)) for nm in names]
    ins, outs = [], []
    for s in range(n):
        ins.append([own[s] if s < m and nm == names[s] else
                    (nm, arg_type_of(ctx, f"in{s}.{nm}", list(range(n)) + [50])) for nm in names])
        outs.append([own[s]] if s < m else [(names[-1], fixed_type(ctx, s))])
    for s in range(m, n):
        ctx.assume(Not(member(outs[s][0], ins[s])))
    h = orders(ctx, n)
    st = [make_stage(f"S{s}", ins[s], outs[s], h[s]) for s in range(n)]
    waves, err, _ = build(st, arg_set(init))
    reach = [[Or(*[member(a, ins[t]) for a in outs[s]]) if s != t else np.bool_(False)
              for t in range(n)] for s in range(n)]
    for k in range(n):
        reach = [[Or(reach[i][j], And(reach[i][k], reach[k][j])) for j in range(n)]
                 for i in range(n)]
    ok = [Not(reach[s][s]) for s in range(n)]
    ok += [Or(member(a, init), *[member(a, outs[t]) for t in range(n)])
           for s in range(n) for a in ins[s]]
    ctx.check(Implies(And(*ok), np.bool_(waves is not None)),
              "stages rewriting different values are accepted when an order exists")
    if waves is not None:
        accepted(ctx, n, st, waves, init, ins, outs)
    ctx.reach()


HARNESSES = [
    H(conflicts, [dict(n=2, nin=2, nout=2, nn=2), dict(n=3, nin=1, nout=1, nn=1),
                  dict(n=3, nin=2, nout=1, nn=2)],
      [dict(n=3, nin=2, nout=2, nn=2), dict(n=3, nin=1, nout=1, nn=1, orders_all=True),
       dict(n=4, nin=1, nout=1, nn=1), dict(n=4, nin=2, nout=1, nn=2)]),
    H(one_rewriter, [dict(n=3, nin=1), dict(n=3, nin=2)], [dict(n=4, nin=1), dict(n=4, nin=2)]),
    H(rewriters, [dict(n=2, m=2), dict(n=3, m=2)], [dict(n=3, m=3), dict(n=3, m=2, third=True),
                                                  dict(n=4, m=2)]),
]
BOUNDS = "up to 3 stages (4 in thorough) with up to 2 inputs and 2 outputs each, 6 types, 2 names"
EXPLANATION = ("The same symbolic collections with rewriting stages: for every accepted schedule, no"
               " two stages of a wave may write the same value or one write what the other reads, "
               "readers see rewritten values only after the rewriter, and unambiguous collections "
               "must be accepted.")
OUTSIDE = ("larger collections")
