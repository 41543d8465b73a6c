from checks.C01 import signatures
from checks.stage_common import *
from sx.run import H

PROPERTY = "C03"
LEVEL = "model_checking"


def requests(ctx, n, per):
    """Each stage asks to run before or after up to `per` other stages."""
    req = []        # (stage, kind, other)
    for s in range(n):
        for j in range(per):
            opts = [None] + [(k, t) for k in ("before", "after") for t in range(n) if t != s]
            o = ctx.choose(f"req{s}.{j}", opts)
            if o is not None:
                req.append((s, o[0], o[1]))
    return req


def declare(st, ins, outs, req, n):
    from instancespace.stages.stage import RunAfter, RunBefore
    out = []
    for s in range(n):
        extra = [(f"order{i}", (RunBefore if k == "before" else RunAfter)[st[t]])
                 for i, (a, k, t) in enumerate(req) if a == s]
        set_signature(st[s], list(ins[s]) + extra, outs[s])
        out.append(extra)
    return out


def edges(req):
    return {(a, t) if k == "before" else (t, a) for a, k, t in req}


def ordered(ctx, n, nin, nn, per, mut):
    names = ["a", "b"][:nn]
    init, ins, outs = signatures(ctx, n, nin, 1, names, mut)
    req = requests(ctx, n, per)
    h = orders(ctx, n) if n < 3 else (list(range(n)) if not bool(ctx.bool("rev"))
                                      else list(range(n))[::-1])
    st = [make_stage(f"S{s}", [], [], h[s]) for s in range(n)]
    declare(st, ins, outs, req, n)
    waves, err, runner = build(st, arg_set(init))
    E = edges(req)
    if not mut:
        run = [np.bool_(False)] * n
        for _ in range(n):
            run = [And(*[Or(member(a, init), *[And(run[t], member(a, outs[t]))
                                               for t in range(n) if t != s]) for a in ins[s]],
                       *[run[b] for b, a in E if a == s]) for s in range(n)]
        ok = And(*run)
        if waves is None:
            ctx.check(Not(ok), "requests that can be met are accepted")
        else:
            ctx.check(ok, "requests that cannot be met make the build fail")
    if waves is not None:
        w = wave_of(waves)
        for b, a in sorted(E):
            ctx.check(np.bool_(w[st[b]] < w[st[a]]),
                      "a stage runs in an earlier wave than the stages it must precede")
    ctx.reach()


def not_data(ctx, kind, n):
    """A request is not supplied to the stage, and the pipeline runs without it."""
    from instancespace.stages.stage import RunAfter, RunBefore
    R = RunBefore if kind == "before" else RunAfter
    seen = []
    x = ctx.real("x", -5, 5)

    def body(k):
        def go(inputs, Out):
            seen.append((k, inputs.a))
            return Out(inputs.a + k)
        return go
    h = orders(ctx, 2)
    out_names = ["b", "c"]
    st = []
    for k in range(2):
        s = make_stage(f"S{k}", [], [], h[k])
        st.append(s)
    asker = 0 if bool(ctx.bool("asker")) else 1
    for k in range(2):
        extra = [("order", R[st[1 - k]])] if k == asker else []
        if extra and bool(ctx.bool("request_first")):
            sig = extra + [("a", float)]
        else:
            sig = [("a", float)] + extra
        In, Out = set_signature(st[k], sig, [(out_names[k], float)])
        st[k]._run = staticmethod(lambda inputs, k=k, Out=Out: body(k)(inputs, Out))
    Init = NamedTuple("Init", [("a", float)])
    waves, err, runner = build(st, Init)
    ctx.check(np.bool_(waves is not None), "a request does not need to be supplied")
    if waves is None:
        return
    out = runner.run_all(Init(x))
    first = asker if kind == "before" else 1 - asker
    ctx.check(np.bool_([k for k, _ in seen] == [first, 1 - first]),
              "stages run in the requested order")
    for k, a in seen:
        ctx.check(same_value(a, x), "data inputs are still passed")
    ctx.check(np.bool_(set(out) == {"a", "b", "c"}), "a request is not among the data returned")
    ctx.check(And(same_value(out["b"], x), same_value(out["c"], x + 1)), "outputs are returned")
    ctx.reach()


def same_value(a, b):
    return eq(a, b)


def absent(ctx, n):
    """Requests about a stage that is not in the collection."""
    from instancespace.stages.stage import RunAfter, RunBefore
    other = make_stage("Other", [("a", fixed_type(ctx, 0))], [("d", fixed_type(ctx, 0))], 9)
    h = orders(ctx, 2)
    st = [make_stage(f"S{s}", [], [], h[s]) for s in range(2)]
    what = [ctx.choose(f"request{s}", [None, "before", "after", "peer"]) for s in range(2)]
    for s in range(2):
        R = {None: [], "before": [("order", RunBefore[other])],
             "after": [("order", RunAfter[other])],
             "peer": [("order", RunAfter[st[1 - s]]), ("other", RunBefore[other])]}[what[s]]
        set_signature(st[s], [("a", fixed_type(ctx, 0))] + R, [("bc"[s], arg_type(ctx, f"o{s}",
                                                                                  0, 3))])
    waves, err, runner = build(st, arg_set([("a", fixed_type(ctx, 0))]))
    if "after" in what or what == ["peer", "peer"]:
        ctx.check(np.bool_(waves is None), "requests that cannot be met make the build fail")
    else:
        ctx.check(np.bool_(waves is not None), "requests that can be met are accepted")
        if waves is not None and "peer" in what:
            w = wave_of(waves)
            i = what.index("peer")
            ctx.check(np.bool_(w[st[1 - i]] < w[st[i]]),
                      "a stage runs in an earlier wave than the stages it must precede")
    ctx.reach()


def as_output(ctx, n):
    """A request among the outputs is rejected when the stage is added."""
    from instancespace.stage_builder import StageBuilder
    from instancespace.stages.stage import RunAfter, RunBefore
    R = [RunBefore, RunAfter][0 if bool(ctx.bool("before")) else 1]
    other = make_stage("Other", [("a", fixed_type(ctx, 0))], [("b", fixed_type(ctx, 0))], 0)
    outs = [("c", arg_type(ctx, "o", 0, 3))]
    pos = 0 if bool(ctx.bool("first")) else 1
    outs.insert(pos, ("d", R[other]))
    s = make_stage("S", [("a", fixed_type(ctx, 0))], outs, 1)
    b = StageBuilder()
    try:
        b.add_stage(s)
        ok = False
    except TypeError:
        ok = True
    ctx.check(np.bool_(ok), "a request is rejected as an output")
    ctx.reach()


HARNESSES = [
    H(ordered, [dict(n=2, nin=1, nn=1, per=1, mut=False), dict(n=2, nin=1, nn=1, per=2, mut=True),
                dict(n=3, nin=1, nn=1, per=1, mut=False)],
      [dict(n=3, nin=1, nn=1, per=1, mut=True), dict(n=3, nin=2, nn=2, per=1, mut=False),
       dict(n=2, nin=2, nn=2, per=2, mut=False)]),
    H(not_data, [dict(kind="before", n=2), dict(kind="after", n=2)]),
    H(absent, [dict(n=2)]),
    H(as_output, [dict(n=2)]),
]
BOUNDS = ("2 stages with up to 2 requests each, 3 stages with up to 1 request each (any targets, "
          "chains and cycles), up to 2 data inputs and 1 output each over 6 types")
EXPLANATION = ("Stages with symbolic RunBefore/RunAfter requests (any target, chains and cycles): "
               "accepted schedules honour every request, acyclic ones are accepted, cyclic ones "
               "refused; requests are not handed to the stage as data and are rejected among "
               "outputs.")
OUTSIDE = ("larger collections")
