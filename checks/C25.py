from dataclasses import fields

import pandas as pd

from sx.run import H
from sx.spec import *

PROPERTY = "C25"
LEVEL = "model_checking"

# part of the model -> the stage it reports and the names its fields have there
RENAMED = {("pilot", "summary"): "pilot_summary", ("pythia", "summary"): "pythia_summary",
           ("trace", "summary"): "trace_summary"}
PARTS = ["data", "feat_sel", "prelim", "sifted", "pilot", "cloister", "pythia", "trace"]
# numbered from one in the model (zero: none), from zero in the stage (minus one: none)
NUMBERS = {("pythia", "selection0"), ("pythia", "selection1")}


def stages():
    from instancespace.stages.cloister import CloisterOutput, CloisterStage
    from instancespace.stages.pilot import PilotOutput, PilotStage
    from instancespace.stages.prelim import PrelimOutput, PrelimStage
    from instancespace.stages.preprocessing import PreprocessingOutput, PreprocessingStage
    from instancespace.stages.pythia import PythiaOutput, PythiaStage
    from instancespace.stages.sifted import SiftedOutput, SiftedStage
    from instancespace.stages.trace import TraceOutputs, TraceStage
    return [(PreprocessingStage, PreprocessingOutput), (PrelimStage, PrelimOutput),
            (SiftedStage, SiftedOutput), (PilotStage, PilotOutput), (PythiaStage, PythiaOutput),
            (CloisterStage, CloisterOutput), (TraceStage, TraceOutputs)]


def metadata():
    from instancespace.data.metadata import Metadata
    return Metadata(feature_names=["a", "b"], algorithm_names=["p", "q"],
                    instance_labels=pd.Series(["i1", "i2", "i3"]), instance_sources=None,
                    features=np.array([[1.0, 2], [3, 4], [5, 7]]),
                    algorithms=np.array([[1.0, 2], [4, 3], [6, 5]]))


def check_model(ctx, model, values, options, run):
    for part in PARTS:
        got = getattr(model, part)
        for f in fields(got):
            name = RENAMED.get((part, f.name), f.name)
            want = values[name]
            if (part, f.name) in NUMBERS:
                want = want + 1
            v = getattr(got, f.name)
            ctx.check(eq(v, want) if not isinstance(v, (list, tuple, np.ndarray, str)) or
                      np.ndim(v) == 0 else np.bool_(False),
                      f"model.{part}.{f.name} is the last value of {name}" + run)
    ctx.check(np.bool_(model.opts is options), "the model has the options it was built with")


def assemble(ctx, how="build", times=1, order=None, drop=()):
    from instancespace.data.options import InstanceSpaceOptions
    from instancespace.instance_space import InstanceSpace
    values, round_, seen = {}, [0], []

    def runs(cls, out):
        def run(inputs):
            v = {f: ctx.real(f"{cls.__name__}.{f}.{round_[0]}", -1000, 1000)
                 for f in out._fields}
            seen.append(cls)
            for f in out._fields:       # stages run in an order that respects their inputs
                values[f] = v[f]
            return out(**v)
        return run
    st = stages()
    for cls, out in st:
        ctx.stub(cls._run, runs(cls, out), name=f"{cls.__name__}._run")
    options = InstanceSpaceOptions.default()
    space = InstanceSpace(metadata(), options, [st[i][0] for i in order or range(len(st))])
    for t in range(times):
        round_[0] = t
        seen.clear()
        if how == "build":
            model = space.build()
        else:
            for _ in space.run_iter():
                pass
            model = space.model
        ctx.check(np.bool_(sorted(c.__name__ for c in seen) == sorted(c.__name__ for c, _ in st)),
                  "every stage runs once")
        check_model(ctx, model, values, options, "")
        ctx.check(np.bool_(space.model is model or all(
            getattr(space.model, p) is not None for p in PARTS)), "the model stays available")
        check_model(ctx, space.model, values, options, " when asked for again")
    ctx.reach()


HARNESSES = [H(assemble, [dict(), dict(times=2), dict(how="iter", times=2),
                          dict(order=[6, 5, 4, 3, 2, 1, 0])])]
EXPLANATION = ("InstanceSpace builds the real pipeline with every stage's _run replaced by one "
               "that returns arbitrary values of its own; each field of the model must equal the "
               "value its stage (the last one that writes the name) returned in the last run.")
BOUNDS = "the seven standard stages, one or two runs, built at once or stage by stage"
OUTSIDE = "data_dense (not determined by the stages yet); plug-in stages"
ASSUMPTIONS = ["stage outputs are opaque to the assembly (one real number each)"]
