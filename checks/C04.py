from typing import NamedTuple as NTu

from checks.stage_common import *
from sx.run import H

PROPERTY = "C04"
LEVEL = "model_checking"

# stage: (inputs, outputs).  Some rewrite an input, some change an input object in place.
PIPES = {
    "line": (["a", "k"], {"A": (["a"], ["b"]), "B": (["b", "k"], ["c"]), "C": (["c"], ["d"])}),
    # D reads x before M rewrites it; C reads the rewritten x
    "rewrite": (["x"], {"A": (["x"], ["y"]), "D": (["x"], ["w"]), "M": (["x", "y"], ["x"]),
                        "C": (["x", "y"], ["z"])}),
    "diamond": (["a"], {"A": (["a"], ["b"]), "M": (["b"], ["b"]), "B": (["b"], ["c"]),
                        "C": (["b", "a"], ["d"]), "E": (["c", "d"], ["e"])}),
    # a later wave of two stages that the last one needs
    "stair": (["a"], {"A": (["a"], ["b"]), "B": (["b"], ["c"]), "C": (["c"], ["d"]),
                      "E": (["c"], ["e"]), "F": (["d", "e"], ["f"])}),
    "wide": (["a"], {"A": (["a"], ["b"]), "B": (["a"], ["c"]), "E": (["b", "c"], ["a2"]),
                     "F": (["b"], ["f"])}),
}
K = {}


def coef(*key):
    """A fixed odd constant per (stage, output, input)."""
    if key not in K:
        K[key] = 2 * len(K) + 3
    return K[key]


def produce(pipe, s, o, vals):
    r = 1000 + coef(pipe, s, o)
    for n in sorted(vals):
        r = r + vals[n] * coef(pipe, s, o, n)
    return r


class Box:
    """A mutable value, as arrays and lists are."""

    def __init__(self, v):
        self.v = v

    def __deepcopy__(self, memo):
        return Box(self.v)


class Ref:
    """What the documentation says the runner holds."""

    def __init__(self, ctx, pipe, waves, ins, outs):
        self.ctx, self.pipe, self.ins, self.outs = ctx, pipe, ins, outs
        self.waves = waves
        self.w = {s: i for i, w in enumerate(waves) for s in w}
        self.init, self.out, self.cur = {}, {}, 0

    def start(self, init):
        self.init, self.out, self.cur = dict(init), {}, 0

    def at(self, k):
        d = dict(self.init)
        for w in self.waves[:k]:
            for s in w:
                d.update(self.out.get(s, {}))
        return d

    def everything(self):
        d = dict(self.init)
        for w in self.waves:
            for s in w:
                d.update(self.out.get(s, {}))
        return d

    def step(self, s, seen, ov, rerun):
        ctx = self.ctx
        k = self.w[s]
        ctx.check(np.bool_(k <= self.cur), "a stage whose upstream waves have not run is refused")
        if not rerun:
            ctx.check(np.bool_(k == self.cur and s not in self.out),
                      "a run goes through the waves in order, each stage once")
        for t in list(self.out):
            if self.w[t] > k:
                del self.out[t]
        have = self.at(k)
        have.update(ov)
        exp = {n: have[n] for n in self.ins[s] if n in have}
        for n in self.ins[s]:
            if n in exp and n in seen:
                ctx.check(eq(seen[n], exp[n]),
                          "a stage receives the override, else the upstream value, else the initial")
            else:
                ctx.check(np.bool_(False), "every input is passed to the stage")
        self.out[s] = {o: produce(self.pipe, s, o, exp) for o in self.outs[s]}
        self.cur = k + 1 if all(t in self.out for t in self.waves[k]) else k
        return self.out[s]


def make_pipe(ctx, pipe, h, log):
    names, sig = PIPES[pipe]
    st = {}
    fail = {"at": None}
    for i, (s, (ins, outs)) in enumerate(sig.items()):
        def body(inputs, Out, s=s, outs=outs):
            if fail["at"] == s:
                raise RuntimeError("stage failed")
            vals = {n: b.v for n, b in inputs._asdict().items()}
            log.append((s, vals))
            r = Out(**{o: Box(produce(pipe, s, o, vals)) for o in outs})
            for b in inputs:                # a stage may change what it was given
                b.v = b.v + 7
            return r
        st[s] = make_stage(s, [(n, Box) for n in ins], [(o, Box) for o in outs], h[i], body)
    Init = NTu("Init", [(n, Box) for n in names])
    waves, err, runner = build(list(st.values()), Init)
    inv = {c: s for s, c in st.items()}
    return names, sig, st, Init, [[inv[c] for c in w] for w in waves], runner, inv, fail


def history(ctx, pipe, k, ovs=True, rev=False, start=("all", "until", "iter"), poison=False):
    from instancespace.stage_runner import StageRunningError
    log = []
    n = len(PIPES[pipe][1])
    h = list(range(n))[::-1] if rev else list(range(n))
    names, sig, st, Init, waves, runner, inv, fail = make_pipe(ctx, pipe, h, log)
    ref = Ref(ctx, pipe, waves, {s: i for s, (i, o) in sig.items()},
              {s: o for s, (i, o) in sig.items()})
    stages = list(sig)
    runs = [("all",)] + [("until", s) for s in stages] + [("iter", j) for j in range(1, n + 1)]
    single = [("stage", s, None) for s in stages]
    if ovs:
        single += [("stage", s, i) for s in stages for i in sig[s][0]]

    def initial(c):
        vals = {nm: ctx.real(f"{nm}{c}", -100, 100) for nm in names}
        return vals, Init(**{nm: Box(v) for nm, v in vals.items()})

    def follow(lo, ov=None, rerun=False):
        return [(s, ref.step(s, seen, ov or {}, rerun)) for s, seen in log[lo:]]

    kept = []

    def returned(d, exp, label):
        kept.append((d, dict(exp)))
        ctx.check(np.bool_(set(d) == set(exp)), label)
        for nm in exp:
            if nm in d:
                ctx.check(eq(d[nm].v, exp[nm]), label)

    for step in range(k):
        if step == 0:
            op = ctx.choose("op0", [r for r in runs if r[0] in start] + [("stage", s, None)
                            for s in stages if ref.w[s] > 0][:1])
        elif step == k - 1:
            op = ctx.choose(f"op{step}", single + [("all",), ("iter", n)]
                            + [r for r in runs if r[0] == "until"])
        else:
            op = ctx.choose(f"op{step}", runs + single)
        lo = len(log)
        if op[0] == "all":
            vals, init = initial(step)
            ref.start(vals)
            d = runner.run_all(init)
            follow(lo)
            ctx.check(np.bool_(sorted(s for s, _ in log[lo:]) == sorted(stages)),
                      "a full run runs every stage once")
            returned(d, ref.everything(), "a full run returns the accumulated values")
        elif op[0] == "until":
            vals, init = initial(step)
            ref.start(vals)
            d = runner.run_until_stage(st[op[1]], init)
            follow(lo)
            exp = [s for w in waves[:ref.w[op[1]]] for s in w] + [op[1]]
            ctx.check(np.bool_(sorted(s for s, _ in log[lo:]) == sorted(exp)),
                      "running until a stage runs the earlier waves and that stage only")
            returned(d, ref.everything(), "running until a stage returns the accumulated values")
        elif op[0] == "iter":
            vals, init = initial(step)
            ref.start(vals)
            it = runner.run_iter(init)
            got, d = [], None
            for _ in range(op[1]):
                try:
                    got.append(next(it))
                except StopIteration:
                    break
            if op[1] == n:
                try:
                    next(it)
                except StopIteration as e:
                    d = e.value
            res = follow(lo)
            ctx.check(np.bool_([inv[g.stage] for g in got] == [s for s, _ in log[lo:]]
                               and len(got) == op[1]),
                      "iterating runs one stage per step and names it")
            for g, (s, o) in zip(got, res):
                for nm in o:
                    ctx.check(eq(getattr(g.output, nm).v, o[nm]),
                              "iterating yields the stage's outputs")
            if op[1] == n:
                ctx.check(np.bool_(d is not None), "iterating to the end returns the values")
                if d is not None:
                    returned(d, ref.everything(), "iterating to the end returns the values")
        else:
            s = op[1]
            if step and not ref.init:       # nothing has been supplied yet
                return
            ov, kw = {}, {}
            if op[2] is not None:
                ov = {op[2]: ctx.real(f"ov{step}", -100, 100)}
                kw = {nm: Box(v) for nm, v in ov.items()}
            allowed = ref.w[s] <= ref.cur
            try:
                o = runner.run_stage(st[s], **kw)
                refused = False
            except StageRunningError:
                refused = True
            ctx.check(np.bool_(refused == (not allowed)),
                      "a stage whose upstream waves have not run is refused")
            if refused or not allowed:
                ctx.check(np.bool_(len(log) == lo), "a refused stage does not run")
            else:
                ctx.check(np.bool_([q for q, _ in log[lo:]] == [s]),
                          "running a single stage runs that stage only")
                res = follow(lo, ov, rerun=True)
                for _, e in res:
                    for nm in e:
                        ctx.check(eq(getattr(o, nm).v, e[nm]), "a single run returns the outputs")
        for d, exp in kept:
            ctx.check(np.bool_(set(d) == set(exp)), "values once returned stay as they are")
            for nm in exp:
                if nm in d:
                    ctx.check(eq(d[nm].v, exp[nm]), "values once returned stay as they are")
        if poison and kept:
            # what was returned is the caller's: changing it changes no run
            for nm in list(kept[-1][0]):
                kept[-1][0][nm] = Box(-12345.0)
            kept.clear()
    ctx.reach()


def reruns(ctx, pipe, k, rev=False):
    """After a complete run, any sequence of single runs."""
    from instancespace.stage_runner import StageRunningError
    log = []
    n = len(PIPES[pipe][1])
    h = list(range(n))[::-1] if rev else list(range(n))
    names, sig, st, Init, waves, runner, inv, fail = make_pipe(ctx, pipe, h, log)
    ref = Ref(ctx, pipe, waves, {s: i for s, (i, o) in sig.items()},
              {s: o for s, (i, o) in sig.items()})
    vals = {nm: ctx.real(nm, -100, 100) for nm in names}
    ref.start(vals)
    runner.run_all(Init(**{nm: Box(v) for nm, v in vals.items()}))
    for s, seen in log:
        ref.step(s, seen, {}, False)
    for step in range(k):
        s = ctx.choose(f"op{step}", list(sig))
        lo = len(log)
        allowed = ref.w[s] <= ref.cur
        ov = {sig[s][0][0]: ctx.real(f"ov{step}", -100, 100)} if step == 0 else {}
        try:
            runner.run_stage(st[s], **{nm: Box(v) for nm, v in ov.items()})
            refused = False
        except StageRunningError:
            refused = True
        ctx.check(np.bool_(refused == (not allowed)),
                  "a stage whose upstream waves have not run is refused")
        if refused or not allowed:
            ctx.check(np.bool_(len(log) == lo), "a refused stage does not run")
            break
        for q, seen in log[lo:]:
            ref.step(q, seen, ov, True)
    ctx.reach()


def failing(ctx, pipe, rev=False):
    """A stage that raised has not run: what needs it stays refused until it has."""
    from instancespace.stage_runner import StageRunningError
    log = []
    n = len(PIPES[pipe][1])
    h = list(range(n))[::-1] if rev else list(range(n))
    names, sig, st, Init, waves, runner, inv, fail = make_pipe(ctx, pipe, h, log)
    ref = Ref(ctx, pipe, waves, {s: i for s, (i, o) in sig.items()},
              {s: o for s, (i, o) in sig.items()})
    bad = ctx.choose("bad", list(sig))
    how = ctx.choose("how", ["all", "iter"])
    fail["at"] = bad
    vals = {nm: ctx.real(nm, -100, 100) for nm in names}
    init = Init(**{nm: Box(v) for nm, v in vals.items()})
    ref.start(vals)
    try:
        if how == "all":
            runner.run_all(init)
        else:
            for _ in runner.run_iter(init):
                pass
        ok = False
    except RuntimeError:
        ok = True
    ctx.check(np.bool_(ok), "the error of a failing stage reaches the caller")
    for s, seen in log:
        ref.step(s, seen, {}, False)
    later = ctx.choose("later", list(sig))
    fail["at"] = None
    for s in (later, bad, later):
        lo = len(log)
        allowed = ref.w[s] <= ref.cur
        try:
            runner.run_stage(st[s])
            refused = False
        except StageRunningError:
            refused = True
        ctx.check(np.bool_(refused == (not allowed)),
                  "a stage whose upstream waves have not run is refused")
        for q, seen in log[lo:]:
            ref.step(q, seen, {}, True)
    ctx.reach()


def between(ctx, pipe, rev=False):
    """A stage run on its own in the middle of an iteration, which then goes on."""
    from instancespace.stage_runner import StageRunningError
    log = []
    n = len(PIPES[pipe][1])
    h = list(range(n))[::-1] if rev else list(range(n))
    names, sig, st, Init, waves, runner, inv, fail = make_pipe(ctx, pipe, h, log)
    ref = Ref(ctx, pipe, waves, {s: i for s, (i, o) in sig.items()},
              {s: o for s, (i, o) in sig.items()})
    vals = {nm: ctx.real(nm, -100, 100) for nm in names}
    ref.start(vals)
    it = runner.run_iter(Init(**{nm: Box(v) for nm, v in vals.items()}))
    left = [s for w in waves for s in w]
    j = ctx.choose("steps", list(range(1, n)))
    for _ in range(j):
        s = inv[next(it).stage]
        left.remove(s)
        ref.step(*log[-1], {}, False)
    s = ctx.choose("single", [s for s in sig if ref.w[s] <= ref.cur])
    ov = {sig[s][0][0]: ctx.real("ov", -100, 100)}
    runner.run_stage(st[s], **{nm: Box(v) for nm, v in ov.items()})
    ref.step(*log[-1], ov, True)
    while left:
        try:
            s = inv[next(it).stage]
        except StopIteration:
            ctx.check(np.bool_(False), "iterating runs one stage per step and names it")
            break
        except StageRunningError:
            ctx.check(np.bool_(all(ref.w[s] > ref.cur for s in left[:1])),
                      "a stage whose upstream waves have not run is refused")
            break
        ctx.check(np.bool_(s in left), "iterating runs one stage per step and names it")
        if s not in left:
            break
        left.remove(s)
        ref.step(*log[-1], {}, True)
    ctx.reach()


def odd(ctx):
    """Overrides and initial values that are empty, false or no value at all."""
    values = [None, 0, 0.0, False, "", []]
    seen = []

    def body(inputs, Out):
        seen.append(inputs._asdict())
        return Out(*[ctx.choose(f"output{len(seen)}.{i}", [None, 3])
                     for i in range(len(Out._fields))])
    A = make_stage("A", [("x", object)], [("y", object)], 0, body)
    B = make_stage("B", [("x", object), ("y", object)], [("z", object)], 1, body)
    Init = NTu("Init", [("x", object)])
    waves, err, runner = build([A, B], Init)
    x = ctx.choose("x", [*values, 4])
    out = runner.run_all(Init(x))
    same = lambda a, b: np.bool_(type(a) is type(b) and a == b)
    label = "a stage receives the override, else the upstream value, else the initial"
    ctx.check(And(same(seen[0]["x"], x), same(seen[1]["x"], x), same(seen[1]["y"], out["y"])),
              label)
    s, name = ctx.choose("override", [(A, "x"), (B, "x"), (B, "y")])
    v = ctx.choose("value", values)
    y = out["y"]
    runner.run_stage(s, **{name: v})
    want = {"x": x} if s is A else {"x": x, "y": y}
    want[name] = v
    ctx.check(And(*[same(seen[-1][k], want[k]) for k in want]), label)
    o = runner.run_stage(A)
    ctx.check(same(seen[-1]["x"], x), label)
    runner.run_stage(B)
    ctx.check(And(same(seen[-1]["x"], x), same(seen[-1]["y"], o.y)), label)
    ctx.reach()


def facade(ctx, k):
    """InstanceSpace: what it hands to the stages, and which run its model is made of."""
    from instancespace.data.metadata import Metadata
    from instancespace.data.options import InstanceSpaceOptions
    from instancespace.instance_space import InstanceSpace
    from instancespace.model import Model
    from instancespace.stage_runner import StageRunningError
    from instancespace.stages.preprocessing import PreprocessingStage
    ann = PreprocessingStage._inputs().__annotations__
    fields = ["feature_names", "algorithm_names", "instance_labels", "instance_sources",
              "features", "algorithms"]
    vals = {f: ctx.real(f, -9, 9) for f in fields}
    md = Metadata(**{f: Box(v) for f, v in vals.items()})
    opts = InstanceSpaceOptions.from_dict({})
    log, count = [], [0]

    def first(inputs, Out):
        count[0] += 1
        noise = ctx.real(f"noise{count[0]}", -9, 9)
        log.append(("P", {f: getattr(inputs, f).v for f in fields}, noise))
        return Out(Box(noise))

    def second(inputs, Out):
        log.append(("Q", inputs.p.v))
        return Out(Box(inputs.p.v * 3 + inputs.features.v))
    P = make_stage("P", [(f, ann[f]) for f in fields], [("p", Box)], 1, first)
    Q = make_stage("Q", [("p", Box), ("features", ann["features"])], [("q", Box)], 0, second)
    old = Model.__dict__["from_stage_runner_output"]
    Model.from_stage_runner_output = classmethod(lambda cls, out, o: (dict(out), o))
    try:
        space = InstanceSpace(md, opts, stages=[Q, P])
        latest = None
        for step in range(k):
            op = ctx.choose(f"op{step}", ["build", "iter", "part", "until", "stage"])
            lo = len(log)
            if op == "stage" and not log:
                continue
            if op == "build":
                m = space.build()
                got = [e[0] for e in log[lo:]]
                ctx.check(np.bool_(got == ["P", "Q"]), "building runs every stage once")
                latest = (log[-2][2], log[-1][1])
                ctx.check(np.bool_(m is space.model), "building returns the model")
            elif op == "iter":
                for _ in space.run_iter():
                    pass
                latest = (log[-2][2], log[-1][1])
            elif op == "part":
                next(space.run_iter())
            elif op == "until":
                d = space.run_until_stage(P)
                ctx.check(np.bool_([e[0] for e in log[lo:]] == ["P"] and "p" in d),
                          "running until a stage runs that stage")
            else:
                ov = ctx.real(f"ov{step}", -9, 9)
                o = space.run_stage(Q, p=Box(ov))
                ctx.check(And(eq(log[-1][1], ov), eq(o.q.v, ov * 3 + vals["features"])),
                          "a single run uses the override")
            for e in log[lo:]:
                if e[0] == "P":
                    ctx.check(And(*[eq(e[1][f], vals[f]) for f in fields]),
                              "stages receive the metadata under their own names")
            for i, e in enumerate(log):
                if op != "stage" and i > lo and e[0] == "Q":
                    ctx.check(eq(e[1], log[i - 1][2]), "stages receive upstream values")
            try:
                m = space.model
                ctx.check(np.bool_(latest is not None), "there is no model before a complete run")
                if latest is not None:
                    ctx.check(And(eq(m[0]["p"].v, latest[0]),
                                  eq(m[0]["q"].v, latest[1] * 3 + vals["features"])),
                              "the model is made of the latest complete run")
                    ctx.check(np.bool_(m[1] is opts), "the model carries the options")
            except StageRunningError:
                ctx.check(np.bool_(latest is None), "a complete run provides a model")
    finally:
        Model.from_stage_runner_output = old
    ctx.reach()


HARNESSES = [
    H(history, [dict(pipe="line", k=3), dict(pipe="rewrite", k=3), dict(pipe="diamond", k=2),
                dict(pipe="wide", k=2), dict(pipe="wide", k=2, rev=True),
                dict(pipe="rewrite", k=2, rev=True),
                dict(pipe="line", k=2, poison=True)],
      [dict(pipe="line", k=4), dict(pipe="rewrite", k=3, rev=True), dict(pipe="diamond", k=3),
       dict(pipe="wide", k=3), dict(pipe="diamond", k=3, rev=True), dict(pipe="wide", k=3, rev=True),
       dict(pipe="rewrite", k=4, ovs=False), dict(pipe="wide", k=3, poison=True)]),
    H(between, [dict(pipe=p) for p in ("rewrite", "diamond", "wide")],
      [dict(pipe=p, rev=r) for p in PIPES for r in (False, True)]),
    H(odd, [dict()]),
    H(reruns, [dict(pipe="stair", k=4), dict(pipe="stair", k=3, rev=True), dict(pipe="rewrite", k=4)],
      [dict(pipe=p, k=5, rev=r) for p in ("stair", "diamond", "wide") for r in (False, True)]),
    H(failing, [dict(pipe=p, rev=r) for p in PIPES for r in (False, True)]),
    H(facade, [dict(k=2), dict(k=3)], [dict(k=4)]),
]
BOUNDS = ("5 pipelines of 3 to 5 stages (rewriting stages, parallel waves, stages changing their "
          "inputs in place), every history of up to 3 calls (4 in thorough), or a full run and 4 (5) single runs, each with at most one "
          "override; all values arbitrary")
EXPLANATION = ("Every history of run_all, run_until_stage, run_iter and run_stage calls (choice of "
               "call, stage and override symbolic, all values symbolic) is executed on the real "
               "StageRunner and on a reference that holds what the documentation says; the inputs "
               "each stage sees, refusals, returned values and, through InstanceSpace, the model "
               "must be equal. Stages that raise and stages that change their inputs in place are "
               "included.")
OUTSIDE = ("`**_arguments` of InstanceSpace.run_until_stage, which the code names as unused; "
               "longer histories")
