import csv
import os
import shutil
import tempfile

import pandas as pd

from sx.run import H
from sx.spec import *

PROPERTY = "C05"
LEVEL = "model_checking"

KINDS = {
    "feat": ["feature_a", "FEATURE_B", "Feature_c_d", "feature_instances"],
    "algo": ["algo_x", "ALGO_Y", "Algo_z_1", "algo_source"],
    "other": ["size", "my_feature_q", "featureless", "algorithm", "x_algo_w", "instances_count",
              "sources"],
}


def kind(name):
    n = name.lower()
    return ("feat" if n.startswith("feature_") else "algo" if n.startswith("algo_") else
            "label" if n == "instances" else "source" if n == "source" else "other")


def layout(ctx, k, extra):
    """Column names: k feature/algorithm/other columns in any order, the label column
    (and maybe the source column) at any place among them."""
    pool = [n for v in KINDS.values() for n in v]
    names = []
    for i in range(k):
        names.append(ctx.choose(f"col{i}", [n for n in pool if n not in names]))
    lab = ctx.choose("label", ["Instances", "instances", "INSTANCES"])
    names.insert(ctx.choose("label_at", list(range(len(names) + 1))), lab)
    if extra:
        src = ctx.choose("source", [None, "source", "Source", "SOURCE"])
        if src:
            names.insert(ctx.choose("source_at", list(range(len(names) + 1))), src)
    return names


def verify(ctx, md, names, cells, labels, sources, n):
    fs = [c for c in names if kind(c) == "feat"]
    al = [c for c in names if kind(c) == "algo"]
    ctx.check(np.bool_(list(md.feature_names) == fs),
              "every feature column is loaded under its own name, in file order")
    ctx.check(np.bool_(list(md.algorithm_names) == al),
              "every algorithm column is loaded under its own name, in file order")
    for what, cols, m in (("feature", fs, md.features), ("algorithm", al, md.algorithms)):
        m = raw(m)
        ok = m.shape == (n, len(cols))
        ctx.check(np.bool_(ok), f"the {what} matrix has a row per instance and a column per name")
        if ok:
            ctx.check(And(*[eq(m[i, j], cells[c][i]) for i in range(n)
                            for j, c in enumerate(cols)]),
                      f"each {what} value keeps its row and column")
    ctx.check(np.bool_(isinstance(md.instance_labels, pd.Series)
                       and [str(v) for v in md.instance_labels] == labels
                       and all(isinstance(v, str) for v in md.instance_labels)),
              "labels are the label column as text")
    if sources is None:
        ctx.check(np.bool_(md.instance_sources is None), "without a source column there are none")
    else:
        ctx.check(np.bool_(isinstance(md.instance_sources, pd.Series)
                           and list(md.instance_sources) == sources),
                  "sources are those of the source column")


LABELS = {"text": lambda i: f"i{i}", "whole": lambda i: 10 + 3 * i, "decimal": lambda i: i - 0.5,
          "small whole": lambda i: np.uint8(200 + i), "flag": lambda i: i % 2 == 0}


def frame(ctx, n, k, extra, numeric=False, gaps=False):
    from instancespace.data.metadata import Metadata
    names = layout(ctx, k, extra)
    cells, cols = {}, {}
    which = ctx.choose("labels", list(LABELS)) if numeric else "text"
    given = [LABELS[which](i) for i in range(n)]
    labels = [str(v) for v in given]
    sources = None
    for c in names:
        if kind(c) == "label":
            cols[c] = np.array(given) if numeric and not isinstance(given[0], str) else given
        elif kind(c) == "source":
            sources = [f"s{i % 2}" for i in range(n)]
            cols[c] = sources
        else:
            cells[c] = [ctx.real_or_nan(f"{c}.{i}", -9, 9) for i in range(n)]
            if gaps and bool(ctx.bool(f"{c} is missing")):
                cells[c] = [np.float64("nan")] * n
            cols[c] = cells[c]
    if gaps:
        how = ctx.choose("rows", ["some", "missing", "twice"])
        for c in cells:
            if how == "missing":        # a row without any value
                cells[c][0] = np.float64("nan")
            elif how == "twice":        # two equal rows, label included
                cells[c][n - 1] = cells[c][0]
        if how == "twice":
            given[n - 1] = given[0]
            labels[n - 1] = labels[0]
            if sources:
                sources[n - 1] = sources[0]
    if conc():
        df = pd.DataFrame({c: cols[c] for c in names})
    else:
        df = pd.DataFrame({c: pd.Series(v, dtype=object if kind(c) in ("feat", "algo", "other")
                                        else None) for c, v in cols.items()})[names]
    md = Metadata.from_data_frame(df)
    verify(ctx, md, names, cells, labels, sources, n)
    ctx.reach()


def wide(ctx, n, k):
    """Many columns of every kind, in an order that is not alphabetical."""
    from instancespace.data.metadata import Metadata
    at = ctx.choose("shift", [0, 1, 7])
    forms = ["feature_{}", "Algo_{}", "size{}", "FEATURE_{}", "algo_x{}", "Feature_x{}"]
    names = ["Instances"] + [forms[(j + at) % 6].format((j * 17 + at) % (k + 1))
                             for j in range(k)] + ["Source"]
    cells = {c: [ctx.real_or_nan(f"{c}.{i}", -9, 9) if j % 9 == at else
                 np.float64(100 * j + i) for i in range(n)]
             for j, c in enumerate(names[1:-1])}
    labels, sources = [f"i{i % 40}" for i in range(n)], [f"s{i % 3}" for i in range(n)]
    df = pd.DataFrame({"Instances": labels,
                       **{c: pd.Series(v, dtype=None if conc() else object)
                          for c, v in cells.items()}, "Source": sources})
    verify(ctx, Metadata.from_data_frame(df), names, cells, labels, sources, n)
    ctx.reach()


CELLS = {"none": ["", "", ""], "whole": ["1", "-3", "0"], "mixed": ["1", "0.5", "-2.25"], "gaps": ["2.5", "", "NaN"],
         "gappy whole": ["7", "", "2"]}


def csv_file(ctx, n, k):
    """Real files: whole numbers, decimals and gaps, text and numeric labels."""
    from instancespace.data.metadata import from_csv_file
    names = [ctx.choose(f"col{i}", [["feature_a", "algo_x"][i % 2], ["FEATURE_B", "Algo_Y"][i % 2]])
             + ("" if i < 2 else str(i)) for i in range(k)]
    kinds = [ctx.choose(f"cells{i}", list(CELLS)) for i in range(k)]
    num = ctx.choose("labels", ["text", "numeric", "odd", "same"])
    src = bool(ctx.bool("source"))
    labels = {"text": [f"inst {i}" for i in range(n)], "same": ["one"] * n,
              "numeric": [str(5 * i + 1) for i in range(n)],
              "odd": [" lead", "#7", "a,'b'"][:n]}[num]
    source = [f"s{0 if num == 'same' else i}" for i in range(n)]
    d = tempfile.mkdtemp(prefix="sx05_")
    try:
        p = os.path.join(d, "metadata.csv")
        with open(p, "w", newline="") as f:
            w = csv.writer(f)
            w.writerow(["Instances"] + names + (["source"] if src else []))
            for i in range(n):
                w.writerow([labels[i]] + [CELLS[q][0 if num == "same" else i] for q in kinds]
                           + ([source[i]] if src else []))
        md = from_csv_file(p)
        num_ = lambda t: np.float64("nan") if t in ("", "NaN") else np.float64(t)  # noqa: E731
        cells = {c: [num_(CELLS[q][0 if num == "same" else i]) for i in range(n)]
                 for c, q in zip(names, kinds)}
        ctx.check(np.bool_(md is not None), "a well-formed file is loaded")
        if md is None:
            return
        verify(ctx, md, ["Instances"] + names, cells, labels,
               source if src else None, n)
        ctx.check(np.bool_(all(np.asarray(raw(m)).dtype.kind in "fO" and
                               all(isinstance(v, float) for v in np.asarray(raw(m)).ravel())
                               for m in (md.features, md.algorithms))),
                  "the matrices hold floating point numbers")
        ctx.reach()
    finally:
        shutil.rmtree(d)


HARNESSES = [
    H(frame, [dict(n=2, k=2, extra=False), dict(n=1, k=1, extra=True),
              dict(n=3, k=1, extra=True, numeric=True), dict(n=2, k=1, extra=False, gaps=True)],
      [dict(n=2, k=3, extra=False), dict(n=2, k=2, extra=True),
       dict(n=3, k=2, extra=True, numeric=True)]),
    H(wide, [dict(n=2, k=90), dict(n=120, k=3)], [dict(n=60, k=60)]),
    H(csv_file, [dict(n=3, k=2), dict(n=1, k=2)], [dict(n=3, k=3), dict(n=2, k=4)]),
]
BOUNDS = ("up to 3 rows; up to 2 data columns of 15 names (feature, algorithm, unrelated; mixed "
          "case) with the label and source column anywhere, or 120 rows or 90 columns; all cell "
          "values, missing or not, columns and rows without any, and equal rows")
EXPLANATION = ("Metadata.from_data_frame is executed on frames with symbolic cells and every order "
               "of columns drawn from 15 names; labels, sources, feature and algorithm columns must "
               "be those named, with every cell at its row and column. The same through real CSV "
               "files with symbolic choices of cell text.")
OUTSIDE = ("larger tables; malformed CSV; label texts that pandas reads as numbers, truth values or missing")
