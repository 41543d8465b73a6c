"""Synthetic stages whose signatures are symbolic."""
from abc import ABCMeta
from typing import NamedTuple

import z3

from sx.spec import *
from sx.values import SymBool, SymInt, tobool

NT = 8
CONC_TYPES = [type(f"T{k}", (), {}) for k in range(64)]


class SymType:
    """The declared type of a stage argument; which one it is, is symbolic."""

    def __init__(self, t):
        self.t = t

    def __call__(self):          # typing.NamedTuple wants something callable
        raise TypeError

    def __hash__(self):
        return 7

    def __eq__(self, o):
        if isinstance(o, SymType):
            return tobool(self.t == o.t)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return not r if isinstance(r, bool) else ~r if isinstance(r, SymBool) else not r

    def __repr__(self):
        return "<type>"


def arg_type(ctx, name, lo, hi):
    v = ctx.int(name, lo, hi)
    if ctx.mode == "conc":
        return CONC_TYPES[v]
    return SymType(v.t)


def arg_type_of(ctx, name, ks):
    """Any of the types numbered ks."""
    i = ctx.int(name, 0, len(ks) - 1)
    if ctx.mode == "conc":
        return CONC_TYPES[ks[i]]
    t = z3.IntVal(ks[-1])
    for j, k in list(enumerate(ks))[:-1]:
        t = z3.If(i.t == j, z3.IntVal(k), t)
    return SymType(t)


def fixed_type(ctx, k):
    if ctx.mode == "conc":
        return CONC_TYPES[k]
    return SymType(z3.IntVal(k))


def same(a, b):
    """Formula: the two (name, type) arguments are the same argument."""
    if a[0] != b[0]:
        return np.bool_(False)
    if isinstance(a[1], SymType) and isinstance(b[1], SymType):
        return tobool(a[1].t == b[1].t)
    return np.bool_(a[1] is b[1] or a[1] == b[1])


def member(a, args):
    return Or(*[same(a, b) for b in args])


def make_meta():
    from instancespace.stages.stage import Stage

    class Meta(type(Stage)):
        def __hash__(cls):
            return cls.__dict__.get("_h", 0)

        def __eq__(cls, o):
            return cls is o
    return Stage, Meta


def make_stage(name, ins, outs, h, body=None):
    """A Stage class with the given (name, type) inputs and outputs and set-order hash h."""
    Stage, Meta = make_meta()
    In = NamedTuple(f"{name}In", list(ins))
    Out = NamedTuple(f"{name}Out", list(outs))

    def _run(inputs):
        return body(inputs, Out)
    ns = dict(_h=h, _inputs=staticmethod(lambda: In), _outputs=staticmethod(lambda: Out),
              _run=staticmethod(_run), __module__="checks.stage_common")
    return Meta(name, (Stage,), ns)


def set_signature(st, ins, outs):
    """(Re)declare a stage's inputs and outputs (requests may name the stage classes)."""
    In = NamedTuple(st.__name__ + "In", list(ins))
    Out = NamedTuple(st.__name__ + "Out", list(outs))
    st._inputs = staticmethod(lambda: In)
    st._outputs = staticmethod(lambda: Out)
    return In, Out


def orders(ctx, n, full=True):
    """Any iteration order of sets of stages: a permutation of small hash values."""
    import itertools
    ps = list(itertools.permutations(range(n)))
    return ctx.choose("order", ps)


def build(stages, init):
    """(waves, exception) of building."""
    from instancespace.stage_builder import StageBuilder, StageResolutionError
    from instancespace.stage_runner import StageRunningError
    b = StageBuilder()
    for s in stages:
        b.add_stage(s)
    try:
        r = b.build(init)
    except (StageResolutionError, StageRunningError) as e:
        return None, e, None
    return [list(w) for w in r._stage_order], None, r


def wave_of(waves):
    return {s: i for i, w in enumerate(waves) for s in w}


def arg_set(args):
    from instancespace.stage_runner import _StageArgument
    return {_StageArgument(n, t) for n, t in args}


_ = ABCMeta, SymInt
