"""What a build hands to its stages: the metadata and options the space was made with."""
import json
import os
import shutil
import tempfile
from dataclasses import fields, is_dataclass
from pathlib import Path

import pandas as pd

from checks.C06 import NONE, fields_of, sections
from checks.C25 import stages
from sx.run import H
from sx.spec import *

PROPERTY = "C28"
LEVEL = "model_checking"

PRELIM = dict(max_perf=("perf", "max_perf"), abs_perf=("perf", "abs_perf"),
              epsilon=("perf", "epsilon"), beta_threshold=("perf", "beta_threshold"),
              bound=("bound", "flag"), norm=("norm", "flag"))


def agree(a, b):
    """Formula: two values hold the same."""
    if isinstance(a, (pd.Series, list, tuple)):
        return And(np.bool_(isinstance(b, (pd.Series, list, tuple)) and len(a) == len(b)),
                   *[agree(x, y) for x, y in zip(list(a), list(b))])
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = raw(np.asarray(a)), raw(np.asarray(b))
        return And(np.bool_(a.shape == b.shape),
                   *[agree(x, y) for x, y in zip(a.ravel(), b.ravel())])
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return np.bool_(a is b or (type(a) is type(b) and a == b))
    if isinstance(a, float) and isinstance(b, float) and a != a:
        return np.bool_(b != b)
    return eq(a, b)


def alike(a, b):
    return And(np.bool_(is_dataclass(a) and type(a) is type(b)),
               *[agree(getattr(a, f.name), getattr(b, f.name)) for f in fields(b)])


def record(ctx, seen):
    """The standard stages, keeping their inputs and giving values of no meaning."""
    def runs(cls, out):
        def run(inputs):
            seen.append((cls.__name__, inputs))
            return out(**{f: f"{cls.__name__}.{f}" for f in out._fields})
        return run
    for cls, out in stages():
        ctx.stub(cls._run, runs(cls, out), name=f"{cls.__name__}._run")


def given(ctx, seen, md, options, names):
    """Every input that no stage provides is the value of that name."""
    own = {f: getattr(md, f) for f in ("feature_names", "algorithm_names", "instance_labels",
                                       "instance_sources", "features", "algorithms")}
    ctx.check(np.bool_(sorted(n for n, _ in seen) == sorted(names)), "every stage runs once")
    for name, inputs in seen:
        for f, v in zip(inputs._fields, inputs):
            if f in own:
                ctx.check(agree(v, own[f]), f"{name} is given the metadata's {f}")
            elif f == "prelim_options":
                for g, (s, h) in PRELIM.items():
                    ctx.check(agree(getattr(v, g), getattr(getattr(options, s), h)),
                              f"{name} is given the preparation settings")
            elif f.endswith("_options"):
                s = f[:-len("_options")]
                if s in sections():
                    ctx.check(alike(v, getattr(options, s)), f"{name} is given the {s} options")


def values(ctx, n, nf, na, sources):
    from instancespace.data.metadata import Metadata
    return Metadata(
        feature_names=[f"feature_{i}" for i in reversed(range(nf))],
        algorithm_names=[f"algo_{i}" for i in reversed(range(na))],
        instance_labels=pd.Series([f"i{9 - i}" for i in range(n)]),
        instance_sources=pd.Series([f"s{i // 2}" for i in range(n)]) if sources else None,
        features=matrix(ctx, "x", n, nf, nan=True), algorithms=matrix(ctx, "y", n, na, nan=True))


def building(ctx, n, nf, na, how="build"):
    from instancespace.data.options import InstanceSpaceOptions
    from instancespace.instance_space import InstanceSpace
    md = values(ctx, n, nf, na, bool(ctx.bool("sources")))
    d = {s: {f: ctx.real(f"{s}.{f}", -100, 100) for f in fields_of(s)} for s in sections()}
    options = InstanceSpaceOptions.from_dict(d)
    seen = []
    record(ctx, seen)
    space = InstanceSpace(md, options)
    names = [c.__name__ for c, _ in stages()]
    if how == "iter":
        for _ in space.run_iter():
            pass
    elif how == "until":
        from instancespace.stages.trace import TraceStage
        names = [n for n in names]
        space.run_until_stage(TraceStage)
        names = [n for n, _ in seen]
        ctx.check(np.bool_("TraceStage" in names and len(set(names)) == len(names)),
                  "stages run up to the one asked for")
    else:
        try:
            space.build()
        except (TypeError, AttributeError, ValueError):
            pass        # the values of no meaning need not make a model
    for s in sections():
        for f in fields_of(s):
            ctx.check(agree(getattr(getattr(options, s), f), d[s][f]), "the options stay as given")
    given(ctx, seen, md, options, names)
    ctx.check(np.bool_(space.metadata is md and space.options is options),
              "the space keeps its metadata and options")
    ctx.reach()


GOOD = {"plain": ("Instances,feature_b,algo_y,feature_a,algo_x\n"
                  "one,1.5,2,3,4\ntwo,5,6,7,8.25\nthree,9,,1,2\n"),
        "sources": ("instances,Source,algo_x,feature_a,algo_y\n1,u,2,3.5,4\n2,v,6,,8\n")}
TABLE = {"plain": (["feature_b", "feature_a"], ["algo_y", "algo_x"], ["one", "two", "three"], None,
                   [[1.5, 3], [5, 7], [9, 1]], [[2, 4], [6, 8.25], [np.nan, 2]]),
         "sources": (["feature_a"], ["algo_x", "algo_y"], ["1", "2"], ["u", "v"],
                     [[3.5], [np.nan]], [[2, 4], [6, 8]])}
OPTIONS = {"some": {"perf": {"MaxPerf": True, "epsilon": 0.4}, "trace": {"pi": 0.61},
                    "sifted": {"K": 7}, "parallel": {"ncores": 5}},
           "none": {}, "other": {"bound": {"flag": False}, "pilot": {"ntries": 11},
                                 "pythia": {"cvfolds": 4}, "selvars": {"smallscale": 0.3}}}


def reading(ctx, by):
    """The space made of two files, of a folder, or refused."""
    from instancespace import instance_space as m
    from instancespace.data.options import InstanceSpaceOptions
    md = ctx.choose("metadata", ["plain", "sources", "missing", "empty"])
    op = ctx.choose("options", ["some", "none", "other", "missing", "broken", "unknown"])
    w = tempfile.mkdtemp(prefix="sx28_")
    try:
        t, o = ("metadata.csv", "options.json") if by == "folder" else ("t.txt", "metadata.csv")
        t, o = Path(w) / t, Path(w) / o
        if md != "missing":
            t.write_text(GOOD.get(md, ""))
        if op != "missing":
            o.write_text("{" if op == "broken" else json.dumps(
                OPTIONS.get(op, {"perf": {"no such option": 1}})))
        for other in ("a.csv", "a.json", "metadata_old.csv", "z.csv"):
            (Path(w) / other).write_text("Instances,feature_z,algo_z\nq,0,0\n"
                                         if other.endswith("csv") else "{}")
        space = m.instance_space_from_directory(Path(w)) if by == "folder" else \
            m.instance_space_from_files(t, o)
    finally:
        shutil.rmtree(w)
    ok = md in TABLE and op in OPTIONS
    ctx.check(np.bool_((space is not None) == ok), "a space is made exactly of readable files")
    if ok and space is not None:
        fn, an, lab, src, x, y = TABLE[md]
        q = space.metadata
        ctx.check(And(agree(list(q.feature_names), fn), agree(list(q.algorithm_names), an),
                      agree(list(q.instance_labels), lab),
                      agree(None if q.instance_sources is None else list(q.instance_sources), src),
                      agree(np.asarray(q.features), np.array(x, dtype=float)),
                      agree(np.asarray(q.algorithms), np.array(y, dtype=float))),
                  "the metadata are those of the file")
        want = InstanceSpaceOptions.from_dict(OPTIONS[op])
        for s in sections():
            ctx.check(alike(getattr(space.options, s), getattr(want, s)),
                      "the options are those of the file")
        seen = []
        record(ctx, seen)
        space.run_until_stage(stages()[-1][0])
        given(ctx, seen, q, want, [n for n, _ in seen])
    ctx.reach()


HARNESSES = [
    H(building, [dict(n=2, nf=2, na=2, how=h) for h in ("build", "iter", "until")],
      [dict(n=4, nf=3, na=3)]),
    H(reading, [dict(by="folder"), dict(by="files")]),
]
EXPLANATION = ("InstanceSpace is made of metadata and options with symbolic contents and run with "
               "every stage's _run replaced by a recorder: each input that no stage provides must "
               "hold the metadata's value, or the options section, of its own name. The same for "
               "spaces made of real files, over symbolic choices of contents and of what is "
               "wrong with them.")
BOUNDS = ("2 instances (4 in thorough), 2-3 features and algorithms, with or without sources; all "
          "fields of all options sections arbitrary; 2 tables and 3 option files, each missing, "
          "empty, broken or with an unknown key")
OUTSIDE = "additional inputs of plug-in stages; other files (C05, C06)"
ASSUMPTIONS = ["stages do not depend on each other's values (each gives texts of no meaning)"]
