import numpy as np
import pandas as pd

from sx.spec import *


def P():
    from instancespace.stages import prelim
    return prelim


def popts(max_perf=True, abs_perf=True, epsilon=0.5, beta=0.5, bound=False, norm=False):
    from instancespace.data.options import PrelimOptions
    return PrelimOptions(max_perf=max_perf, abs_perf=abs_perf, epsilon=epsilon,
                         beta_threshold=beta, bound=bound, norm=norm)


def sopts(**k):
    from instancespace.data.options import SelvarsOptions
    d = dict(small_scale_flag=False, small_scale=0.5, file_idx_flag=False, file_idx="",
             feats=None, algos=None, selvars_type="Ftr", min_distance=0.1, density_flag=False)
    d.update(k)
    return SelvarsOptions(**d)


def labels(n, pre="i"):
    return pd.Series([f"{pre}{k}" for k in range(n)])


def run(x, y, po, so=None, s=None, x_raw=None, y_raw=None, lab=None):
    m = P()
    n = x.shape[0]
    inp = m.PrelimInput(x, y, x.copy() if x_raw is None else x_raw,
                        y.copy() if y_raw is None else y_raw, s,
                        labels(n) if lab is None else lab, po, so or sopts())
    return m.PrelimStage._run(inp)
