"""Synthetic test instances, algorithms and options for driving the real stages."""

from __future__ import annotations

import dataclasses
from typing import Any

import numpy as np
import pandas as pd

from instancespace.data import options as o
from instancespace.data.metadata import Metadata


def features(rng: np.random.Generator, n: int, k: int, heavy: bool = True) -> np.ndarray:
    """Columns of different shapes; no column is constant, no two are equal."""
    base = rng.normal(size=(n, max(2, k // 2)))
    out = np.empty((n, k))
    for j in range(k):
        kind = rng.integers(6)
        w = base[:, rng.integers(base.shape[1])] * rng.uniform(0, 1.5) + rng.normal(size=n)
        if kind == 1:
            w = np.exp(w)
        elif kind == 2:
            w = rng.uniform(-1, 1, size=n) + 0.3 * w
        elif kind == 3 and heavy:
            w = w + np.where(rng.random(n) < 0.06, rng.choice([-1, 1], size=n) * 10 ** rng.uniform(1, 3, size=n), 0)
        elif kind == 4:
            w = np.round(w * 3)
            if len(np.unique(w)) < 4 or np.mean(w == np.median(w)) > 0.3:
                w = w + rng.normal(size=n)
        out[:, j] = w * 10.0 ** rng.integers(-2, 3) + rng.normal() * 10
    return out


def performance(rng: np.random.Generator, x: np.ndarray, a: int, positive: bool = True, ties: bool = True) -> np.ndarray:
    n = x.shape[0]
    z = (x - x.mean(0)) / np.where(x.std(0) > 0, x.std(0), 1)
    y = np.empty((n, a))
    for j in range(a):
        v = z @ rng.normal(size=z.shape[1]) / np.sqrt(z.shape[1]) + 0.5 * rng.normal(size=n)
        y[:, j] = 1 / (1 + np.exp(-v)) if positive else v
    style = rng.integers(5)
    if style == 1:
        y = np.round(y, 2)
    elif style == 2 and ties:
        y = np.round(y * 4) / 4
        if positive:
            y = np.abs(y)
    elif style == 3:
        y = y * 10.0 ** rng.integers(-2, 4)
    for j in range(a):  # no constant performance columns
        if len(np.unique(y[:, j])) < 3:
            y[:, j] += np.linspace(0.1, 0.2, n)
    return y


def labels(rng: np.random.Generator, n: int) -> list[str]:
    style = rng.integers(3)
    names = [f"i{k}" if style == 0 else str(k + 1) if style == 1 else f"inst {k:03d}" for k in range(n)]
    return [names[i] for i in rng.permutation(n)]


def metadata(
    x: np.ndarray,
    y: np.ndarray,
    labs: list[str],
    sources: list[str] | None,
    fnames: list[str] | None = None,
    anames: list[str] | None = None,
    index: Any = None,
) -> Metadata:
    fnames = fnames or [f"feature_f{j}" for j in range(x.shape[1])]
    anames = anames or [f"algo_a{j}" for j in range(y.shape[1])]
    return Metadata(
        feature_names=list(fnames),
        algorithm_names=list(anames),
        instance_labels=pd.Series(labs, index=index, name="Instances"),
        instance_sources=None if sources is None else pd.Series(sources, index=index, name="Source"),
        features=np.array(x, dtype=float),
        algorithms=np.array(y, dtype=float),
    )


def options(**groups: dict[str, Any]) -> o.InstanceSpaceOptions:
    classes = {
        "parallel": o.ParallelOptions,
        "perf": o.PerformanceOptions,
        "auto": o.AutoOptions,
        "bound": o.BoundOptions,
        "norm": o.NormOptions,
        "selvars": o.SelvarsOptions,
        "sifted": o.SiftedOptions,
        "pilot": o.PilotOptions,
        "cloister": o.CloisterOptions,
        "pythia": o.PythiaOptions,
        "trace": o.TraceOptions,
        "outputs": o.OutputOptions,
    }
    return dataclasses.replace(
        o.InstanceSpaceOptions.from_dict({}),
        **{g: dataclasses.replace(classes[g].default(), **kw) for g, kw in groups.items()},
    )


def with_missing(rng: np.random.Generator, m: np.ndarray, p: float) -> np.ndarray:
    m = m.copy()
    m[rng.random(m.shape) < p] = np.nan
    return m


def same(a: Any, b: Any, rtol: float = 1e-9, atol: float = 1e-12) -> bool:
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)


def exact(a: Any, b: Any) -> bool:
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f" and b.dtype.kind == "f")
