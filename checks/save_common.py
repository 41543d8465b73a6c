"""A model with symbolic contents, and what saving it writes."""
import os
import shutil
import tempfile

import pandas as pd
from shapely.geometry import MultiPolygon, Polygon

from sx.core import Unsupported
from sx.spec import *


def make(ctx, x=None, y=None, **parts):
    """A Model; parts that a save does not use stay None."""
    from instancespace.model import Model
    d = dict(data=None, data_dense=None, feat_sel=None, prelim=None, sifted=None, pilot=None,
             cloister=None, pythia=None, trace=None, opts=None)
    d.update(parts)
    return Model(**d)


def data(**k):
    from instancespace.data.model import Data
    d = dict(inst_labels=None, feat_labels=[], algo_labels=[], x=None, y=None, x_raw=None,
             y_raw=None, y_bin=None, y_best=None, p=None, num_good_algos=None, beta=None, s=None)
    d.update(k)
    return Data(**d)


def blank(cls, **k):
    from dataclasses import fields
    return cls(**{f.name: k.get(f.name) for f in fields(cls)})


def footprint(polygon):
    from instancespace.data.model import Footprint
    return Footprint(polygon, 1.0, 1, 1, 1.0, 1.0)


PROBE = 123.45678901


def rounded(v, fmt):
    """A number as a format leaves it, for one number that has many digits."""
    from sx.values import Sym, SymBool
    if fmt is None or not isinstance(v, Sym) or isinstance(v, SymBool):
        return v
    return If(eq(v, PROBE), float(fmt % PROBE if isinstance(fmt, str) else fmt(PROBE)), v)


class Folder:
    """A scratch folder; tables written there are kept with symbolic cells.

    On concrete values (replay) the files are really written and read back."""

    def __init__(self, ctx):
        self.ctx, self.frames = ctx, {}
        self.path = tempfile.mkdtemp(prefix="sx_save_")
        if ctx.mode != "conc":
            ctx.stub(pd.DataFrame.to_csv, self.to_csv)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)

    def to_csv(self, frame, path=None, *a, sep=",", index=True, index_label=None, header=True,
               float_format=None, **k):
        if a or k or sep != "," or not isinstance(frame, pd.DataFrame) or header is not True:
            raise Unsupported("to_csv with other arguments")
        head = list(frame.columns)
        rows = [[rounded(frame.iloc[i, j], float_format) for j in range(len(head))]
                for i in range(len(frame))]
        if index:
            name = index_label if index_label is not None else frame.index.name
            rows = [[l, *r] for l, r in zip(frame.index, rows)]
            head = head if name is False else ["" if name is None else name, *head]
        self.frames[str(path)] = ([str(h) for h in head], rows)

    def files(self):
        if self.ctx.mode == "conc":
            return sorted(os.listdir(self.path))
        return sorted({os.path.basename(p) for p in self.frames} | set(os.listdir(self.path)))

    def table(self, name):
        """(header, rows); the first entry of a row is its label."""
        p = os.path.join(self.path, name)
        if self.ctx.mode == "conc" or p not in self.frames:
            if not os.path.exists(p):
                return None
            t = pd.read_csv(p, dtype={0: str})
            return list(t.columns), [[*r] for r in t.itertuples(index=False)]
        return self.frames[p]


def check_table(ctx, f, name, cols, rows, cells, what):
    """The file has exactly these columns and rows, and these values in them."""
    t = f.table(name)
    ctx.check(np.bool_(t is not None), f"{what} are saved")
    if t is None:
        return
    head, got = t
    ctx.check(np.bool_(sorted(head[1:]) == sorted(cols) and head[0] == "Row" and
                       len(set(head)) == len(head)), f"{what} have a column for each label")
    ctx.check(np.bool_(sorted(str(r[0]) for r in got) == sorted(map(str, rows))),
              f"{what} have a row for each label")
    if sorted(head[1:]) != sorted(cols) or len(got) != len(rows):
        return
    at = {str(r[0]): r for r in got}
    ctx.check(And(*[same(at[str(r)][head.index(c)], cells[i][j])
                    for i, r in enumerate(rows) for j, c in enumerate(cols) if str(r) in at]),
              f"{what} hold the model's value for each pair of labels")


def same(a, b):
    """Equal, where a may have been read back from a file."""
    if conc() and not isinstance(a, str):
        a, b = float(a), float(b)
        return np.bool_(a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * (1 + abs(b)))
    if isinstance(a, str) or isinstance(b, str):
        return np.bool_(a == b)
    return Or(And(isnan(a), isnan(b)), eq(a, b))
