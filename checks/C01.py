from checks.stage_common import *
from sx.run import H

PROPERTY = "C01"
LEVEL = "model_checking"


def signatures(ctx, n, nin, nout, names, mut):
    """n stages; each input and output has a fixed name and an arbitrary type."""
    init = [(nm, fixed_type(ctx, 0)) for nm in names]
    ins, outs = [], []
    for s in range(n):
        ins.append([(names[i % len(names)], arg_type(ctx, f"in{s}.{i}", 0, 5))
                    for i in range(nin)])
        outs.append([(names[(i + (s if nout == 1 else 0)) % len(names)],
                      arg_type(ctx, f"out{s}.{i}", 0, 5)) for i in range(nout)])
    if not mut:      # every output is a value of its own
        for s in range(n):
            for o in outs[s]:
                ctx.assume(And(*[Not(same(o, q)) for q in init]))
                ctx.assume(And(*[Not(same(o, q)) for q in ins[s]]))
                ctx.assume(And(*[Not(same(o, q)) for t in range(n) if t < s for q in outs[t]]))
    return init, ins, outs


def fixpoint(n, init, ins, outs, avail=None):
    """Formula: stage s can run in some order."""
    run = [np.bool_(False)] * n
    for _ in range(n):
        run = [And(*[Or(member(a, init), *[And(run[t], member(a, outs[t]))
                                           for t in range(n) if t != s]) for a in ins[s]])
               for s in range(n)]
    return run


def schedule(ctx, n, nin, nout, nn, mut, orders_all=False):
    names = ["a", "b", "c"][:nn]
    init, ins, outs = signatures(ctx, n, nin, nout, names, mut)
    if orders_all:
        h = orders(ctx, n)
    else:
        h = list(range(n)) if not bool(ctx.bool("rev")) else list(range(n))[::-1]
    st = [make_stage(f"S{s}", ins[s], outs[s], h[s]) for s in range(n)]
    given = arg_set(init)
    keep = list(given)
    waves, err, _ = build(st, given)
    ctx.check(np.bool_(len(given) == len(keep) and all(any(a is b for b in given) for a in keep)),
              "building does not change the caller's set of initial inputs")
    if not mut:
        ok = And(*fixpoint(n, init, ins, outs))
        if waves is None:
            ctx.check(Not(ok), "a collection with a possible order is accepted")
        else:
            ctx.check(ok, "a collection without a possible order is refused")
    if waves is not None:
        flat = [s for w in waves for s in w]
        ctx.check(np.bool_(len(flat) == n and all(sum(f is s for f in flat) == 1 for s in st)),
                  "every stage is scheduled exactly once")
        if len(flat) == n:
            w = wave_of(waves)
            for s in range(n):
                for a in ins[s]:
                    ctx.check(Or(member(a, init),
                                 *[member(a, outs[t]) for t in range(n) if w[st[t]] < w[st[s]]]),
                              "each input is an initial input or an output of an earlier wave")
    ctx.reach()


def no_output(ctx, n):
    """Stages that only consume (reports, writers) are scheduled too."""
    names = ["a", "b"]
    init = [("a", fixed_type(ctx, 0))]
    outs = [[("b", arg_type(ctx, "o", 0, 3))], []]
    ins = [[("a", arg_type(ctx, "i", 0, 3))], [("b", arg_type(ctx, "j", 0, 3))]]
    h = orders(ctx, 2)
    st = [make_stage(f"S{s}", ins[s], outs[s], h[s]) for s in range(2)]
    waves, err, _ = build(st, arg_set(init))
    ok = And(*fixpoint(2, init, ins, outs))
    if waves is None:
        ctx.check(Not(ok), "a collection with a possible order is accepted")
    else:
        ctx.check(ok, "a collection without a possible order is refused")
        ctx.check(np.bool_([list(w) for w in waves] == [[st[0]], [st[1]]]),
                  "every stage is scheduled exactly once")
    ctx.reach()


def class_initial(ctx, n):
    """The initial inputs given as a class instead of a set."""
    from typing import NamedTuple as NTu
    init = [("a", fixed_type(ctx, 0)), ("b", fixed_type(ctx, 1))]
    ins = [[("a", arg_type(ctx, "i0", 0, 3))], [("b", arg_type(ctx, "i1", 0, 3))]]
    outs = [[("c", fixed_type(ctx, 0))], [("d", fixed_type(ctx, 0))]]
    st = [make_stage(f"S{s}", ins[s], outs[s], s) for s in range(2)]
    Init = NTu("Init", init)
    waves, err, _ = build(st, Init)
    ok = And(*[member(i[0], init) for i in ins])
    ctx.check(Iff(np.bool_(waves is not None), ok),
              "a collection is accepted exactly when an order is possible")
    ctx.reach()


def long(ctx, n):
    """A chain of n stages, each taking what the one before it gives, one link arbitrary."""
    at = ctx.choose("link", list(range(n)))
    names = [f"v{k}" for k in range(n + 1)]
    order = ctx.choose("order", ["forward", "backward", "mixed"])
    h = {"forward": list(range(n)), "backward": list(range(n))[::-1],
         "mixed": [k * 7 % 64 for k in range(n)]}[order]
    t = arg_type(ctx, "type", 0, 3)
    ins = [[(names[k], t if k == at else fixed_type(ctx, 0)), ("v0", fixed_type(ctx, 0))]
           if k else [(names[0], t if k == at else fixed_type(ctx, 0))] for k in range(n)]
    outs = [[(names[k + 1], fixed_type(ctx, 0))] for k in range(n)]
    st = [make_stage(f"S{k}", ins[k], outs[k], h[k]) for k in range(n)]
    waves, err, _ = build(st, arg_set([("v0", fixed_type(ctx, 0))]))
    ok = same(ins[at][0], (names[at], fixed_type(ctx, 0)))
    if waves is None:
        ctx.check(Not(ok), "a collection with a possible order is accepted")
    else:
        ctx.check(ok, "a collection without a possible order is refused")
        ctx.check(np.bool_([list(w) for w in waves] == [[s] for s in st]),
                  "every stage is scheduled exactly once")
    ctx.reach()


HARNESSES = [
    H(schedule, [dict(n=3, nin=1, nout=1, nn=1, mut=False),
                 dict(n=3, nin=1, nout=1, nn=1, mut=True),
                 dict(n=3, nin=2, nout=1, nn=2, mut=False),
                 dict(n=2, nin=2, nout=2, nn=2, mut=True),
                 dict(n=4, nin=1, nout=1, nn=1, mut=False)],
      [dict(n=3, nin=2, nout=2, nn=2, mut=True), dict(n=3, nin=2, nout=2, nn=2, mut=False),
       dict(n=4, nin=2, nout=1, nn=2, mut=False), dict(n=4, nin=1, nout=1, nn=1, mut=True),
       dict(n=5, nin=1, nout=1, nn=1, mut=False),
       dict(n=3, nin=1, nout=1, nn=1, mut=True, orders_all=True)]),
    H(long, [dict(n=20)], [dict(n=48)]),
    H(no_output, [dict(n=2)]),
    H(class_initial, [dict(n=2)]),
]
BOUNDS = ("up to 4 stages with up to 2 inputs and 2 outputs each, 6 types, 2 names; chains of 20 "
          "(48) stages with one arbitrary link")
EXPLANATION = ("StageBuilder resolves collections of stages whose input and output types are "
               "symbolic (each an arbitrary one of a set of types, so equal names may or may not "
               "match). The schedule is compared with a formula of the least fixpoint of 'all inputs"
               " available': completeness, uniqueness, order, acceptance whenever an order exists, "
               "refusal otherwise, and the caller's set afterwards.")
OUTSIDE = ("larger collections; parallel execution (waves run one stage after another)")
