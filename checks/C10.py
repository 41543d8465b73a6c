"""No stage alters what it is given: the harnesses of the other checks, watched."""
import dataclasses

import pandas as pd

from checks import C07, C08, C09, C11, C12, C15, C16, C17, C18, C19, C20, C24, C26
from sx.run import H
from sx.spec import *

PROPERTY = "C10"
LEVEL = "model_checking"


class Muted:
    """A context whose own conditions belong to another check."""

    def __init__(self, ctx):
        self._ctx = ctx

    def check(self, *a, **k):
        return None

    def __getattr__(self, name):
        return getattr(self._ctx, name)


def snap(v):
    if isinstance(v, pd.DataFrame):
        return [v.index.tolist(), v.columns.tolist(),
                [[e for e in v[c].array] for c in v.columns] if v.columns.is_unique
                else v.to_numpy().tolist()]
    if isinstance(v, pd.Series):
        return [v.index.tolist(), list(v.array)]
    if isinstance(v, np.ndarray):
        return raw(v).copy()
    if isinstance(v, (list, tuple)):
        return [snap(e) for e in v]
    if isinstance(v, dict):
        return [[k, snap(e)] for k, e in v.items()]
    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        return [[f.name, snap(getattr(v, f.name))] for f in dataclasses.fields(v)]
    return v


def same(a, b):
    """Formula: a snapshot still describes the same values."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if type(a) is not type(b) or a.shape != b.shape:
            return np.bool_(False)
        return And(*[same(x, y) for x, y in zip(a.ravel(), b.ravel())])
    if isinstance(a, list) or isinstance(b, list):
        if type(a) is not type(b) or len(a) != len(b):
            return np.bool_(False)
        return And(*[same(x, y) for x, y in zip(a, b)])
    if a is b:
        return np.bool_(True)
    if isnum(a) and isnum(b):
        return identical(a, b)
    return np.bool_(type(a) is type(b) and bool(a == b))


def isnum(v):
    from sx.values import Sym
    return isinstance(v, (int, float, np.number, np.bool_, Sym))


def identical(a, b):
    from sx.values import Sym, SymBool
    if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
        return Iff(a, b)
    if isinstance(a, Sym) or isinstance(b, Sym):
        return eq(a, b)
    return np.bool_(a == b or (a != a and b != b))


def watched(ctx, stage, harness, cfg):
    import importlib
    mod, cls = stage
    st = getattr(importlib.import_module(f"instancespace.stages.{mod}"), cls)
    old, plain = st.__dict__["_run"], st._run
    seen = []

    def run(inputs):
        before = [(f, snap(v)) for f, v in zip(inputs._fields, inputs)]
        try:
            return plain(inputs)
        finally:
            seen.append((before, [snap(v) for v in inputs]))
    st._run = staticmethod(run)
    try:
        harness(Muted(ctx), **cfg)
    finally:
        st._run = old
    for before, after in seen:
        for (f, a), b in zip(before, after):
            ctx.check(same(a, b), f"{cls} leaves its input {f} as it was")
    ctx.check(np.bool_(bool(seen)), f"{cls} was run")
    ctx.reach()


PRE, PRELIM = ("preprocessing", "PreprocessingStage"), ("prelim", "PrelimStage")
SIFTED, PILOT = ("sifted", "SiftedStage"), ("pilot", "PilotStage")
CLOISTER, PYTHIA = ("cloister", "CloisterStage"), ("pythia", "PythiaStage")
TRACE = ("trace", "TraceStage")


def H_(name, stage, harness, quick, thorough=None):
    def fn(ctx, **cfg):
        watched(ctx, stage, harness, cfg)
    fn.__name__ = name
    return H(fn, quick, thorough)


HARNESSES = [
    H_("preprocessing", PRE, C07.process,
       [dict(n=2, nf=2, na=2, select=False, missing="xy"),
        dict(n=5, nf=2, na=1, select=False, missing="x0"),
        dict(n=2, nf=2, na=2, select=True, missing="y", feats=False),
        dict(n=2, nf=2, na=1, select=True, missing="", algos=False)],
       [dict(n=3, nf=2, na=1, select=False, missing="xy"),
        dict(n=2, nf=2, na=2, select=True, missing="xy")]),
    H_("labelling", PRELIM, C08.label,
       [dict(n=2, na=2, maxp=m, absp=True, nan=True) for m in (True, False)] +
       [dict(n=2, na=2, maxp=m, absp=False, nan=False) for m in (True, False)] +
       [dict(n=1, na=2, maxp=m, absp=False, nan=False, zero=True) for m in (True, False)]),
    H_("bounding", PRELIM, C09.bound, [dict(n=5, nf=1, on=True), dict(n=6, nf=1, on=True, nan=True)],
       [dict(n=5, nf=2, on=True), dict(n=7, nf=1, on=True, nan=True)]),
    H_("normalising", PRELIM, C11.norm,
       [dict(n=2, nf=1, na=2, maxp=True, absp=True), dict(n=3, nf=1, na=1, maxp=True, absp=True, nan=True),
        dict(n=3, nf=1, na=1, maxp=False, absp=False)],
       [dict(n=3, nf=2, na=2, maxp=m, absp=False) for m in (True, False)]),
    H_("fraction", PRELIM, C12.fraction, [dict(n=3), dict(n=2, dense=True)]),
    H_("index_file", PRELIM, C12.index_file, [dict(n=2, k=2, sep=",")]),
    H_("density", PRELIM, C12.density, [dict(n=3, t="Ftr"), dict(n=3, t="Ftr&AP&Good")],
       [dict(n=3, t=t) for t in C12.TYPES]),
    H_("correlation", SIFTED, C15.correlation, [dict(n=4, nf=4, na=1, level=True),
                                                dict(n=5, nf=4, na=1, nan=True)]),
    H_("few_features", SIFTED, C15.skipped, [dict(nf=2, flag=True), dict(nf=5, flag=False)]),
    H_("search", SIFTED, C15.search, [dict(n=5, nf=4, na=2, k=2, cands=1),
                                      dict(n=4, nf=4, na=1, k=2, cands=1, density=True)]),
    H_("numerical", PILOT, C16.numerical, [dict(n=3, nf=2, na=1, tries=2),
                                           dict(n=3, nf=3, na=1, tries=2, given=True)]),
    H_("supplied", PILOT, C16.supplied, [dict(n=3, nf=2, na=1)]),
    H_("analytic", PILOT, C16.analytic, [dict(n=4, nf=2, na=1)]),
    H_("corners", CLOISTER, C17.corners, [dict(n=2, nf=2, sym="x"), dict(n=3, nf=2, sym="x")],
       [dict(n=3, nf=3, sym="a")]),
    H_("selecting", PYTHIA, C18.averages, [dict(n=2, na=2, nan=True)]),
    H_("training", PYTHIA, C19.training,
       [dict(n=3, na=1, weights=True, nan=1), dict(n=2, na=2, given=True, grid=False),
        dict(n=2, na=1, zsym=True)],
       [dict(n=3, na=2, weights=True, nan=1), dict(n=2, na=3, given=True)]),
    H_("statistics", TRACE, C20.stats, [dict(vary="good", sim=True), dict(vary="best", sim=False)]),
    H_("contest", TRACE, C24.contest, [dict(own=2, others=1)], [dict(own=2, others=1, multi=True)]),
    H_("trimming", TRACE, C26.build, [dict(pieces=2, flip=0, inner=1)]),
]
EXPLANATION = ("Each stage runs on the symbolic inputs of the checks of its results (C07 to C26), with "
               "every option they vary; a copy of each input (arrays, tables, labels, options, nested "
               "records) taken before the run must equal the input afterwards.")
BOUNDS = "those of C07 to C26 for the configurations used: 2 to 6 instances (12 to 13 for TRACE), 1 to 5 features, 1 to 3 algorithms"
OUTSIDE = "the stand-ins of library functions do not write into their arguments"
ASSUMPTIONS = ["the library functions replaced in C11, C12, C15 to C20, C24 and C26 leave their arguments alone"]
