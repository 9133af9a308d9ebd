"""Shared by the feature-selection monitors."""

import numpy as np
import pandas as pd
from scipy import stats

from monitor import data as d

from instancespace.data.options import ParallelOptions, SelvarsOptions, SiftedOptions
from instancespace.stages.sifted import SiftedInput, SiftedStage

ROWS = ("y", "y_bin", "x_raw", "y_raw", "beta", "num_good_algos", "y_best", "p")


def make_input(rng, x, y, opts, selvars=None, dense=None, x_raw=None, parallel=None):  # noqa: ANN001, ANN201
    n, a = y.shape
    yb = y >= np.median(y, 0)
    good = yb.sum(1)
    labs = d.labels(rng, n)
    return SiftedInput(
        x=x, y=y, y_bin=yb, x_raw=x * 3 + 1 if x_raw is None else x_raw, y_raw=y * 2 - 1,
        beta=good > 0.5 * a, num_good_algos=good, y_best=y.max(1), p=y.argmax(1) + 1,
        inst_labels=pd.Series(labs), s=pd.Series([f"s{i % 3}" for i in range(n)]) if rng.random() < 0.5 else None,
        feat_labels=[f"feature_{chr(97 + j)}{j}" for j in range(x.shape[1])],
        sifted_options=opts, selvars_options=selvars or SelvarsOptions.default(), data_dense=dense,
        parallel_options=parallel or ParallelOptions.default(flag=False),
    )


def run(inp):  # noqa: ANN001, ANN201
    return SiftedStage._run(inp)  # noqa: SLF001


def correlations(x, y):  # noqa: ANN001, ANN201
    """Pearson correlation of every feature with every algorithm, and its two-sided p-value, pairwise complete."""
    r = np.empty((x.shape[1], y.shape[1]))
    p = np.empty_like(r)
    for i in range(x.shape[1]):
        for j in range(y.shape[1]):
            ok = ~np.isnan(x[:, i]) & ~np.isnan(y[:, j])
            u, v = x[ok, i] - x[ok, i].mean(), y[ok, j] - y[ok, j].mean()
            c = float(np.clip((u @ v) / np.sqrt((u @ u) * (v @ v)), -1, 1))
            df = ok.sum() - 2
            r[i, j] = c
            p[i, j] = 0.0 if abs(c) == 1 else 2 * stats.t.sf(abs(c) * np.sqrt(df / max(1e-300, 1 - c * c)), df)
    return r, p


def by_correlation(r, p, threshold):  # noqa: ANN001, ANN201
    """(must be kept, may be kept, unsure): one feature per algorithm, and all at or above the threshold."""
    sig = np.where(p <= 0.05, np.abs(r), 0.0)
    unsure = bool((np.abs(p - 0.05) < 1e-6).any() or (np.abs(sig - threshold) < 1e-9).any())
    must: set[int] = set()
    free = 0
    for j in range(r.shape[1]):
        col = sig[:, j]
        if col.max() > 0:
            top = np.flatnonzero(col >= col.max() - 1e-12)
            unsure = unsure or len(top) > 1
            must.add(int(top[0]))
        else:
            free += 1
        must |= {int(i) for i in np.flatnonzero(col >= threshold)}
    return must, free, unsure
