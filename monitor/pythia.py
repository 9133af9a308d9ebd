"""Inputs for the prediction stage and what its outputs have to agree with."""

from __future__ import annotations

from typing import Any

import numpy as np
from instancespace.data.options import ParallelOptions, PythiaOptions
from instancespace.stages.pythia import PythiaInput, PythiaStage


def problem(rng: np.random.Generator, folds: int, n: int | None = None, a: int | None = None, hard: float = 0.3) -> dict[str, Any]:
    n = n or int(rng.integers(24, 70))
    a = a or int(rng.integers(1, 5))
    z = rng.normal(size=(n, 2)) * 10.0 ** rng.uniform(-1, 1.5, size=2) + rng.normal(size=2) * 10.0 ** rng.uniform(-1, 1.5)
    if rng.random() < 0.3:
        z[rng.integers(n, size=n // 4)] = z[rng.integers(n, size=n // 4)]
    zz = (z - z.mean(0)) / z.std(0)
    y_bin = np.zeros((n, a), dtype=bool)
    for j in range(a):
        v = zz @ rng.normal(size=2) + (rng.random() < 0.4) * (np.hypot(*zz.T) - 1) * 2 + rng.normal(size=n) * rng.choice([0.0, hard, 3.0])
        q = rng.choice([0.15, 0.3, 0.5, 0.7, 0.85])
        y_bin[np.argsort(v)[: int(round(q * n))], j] = True
        for c in (True, False):  # each class at least once per fold
            lack = folds + 1 - int(np.sum(y_bin[:, j] == c))
            if lack > 0:
                y_bin[rng.permutation(np.flatnonzero(y_bin[:, j] != c))[:lack], j] = c
    y = np.where(y_bin, rng.uniform(0.5, 1.0, (n, a)), rng.uniform(0, 0.6, (n, a))) * 10.0 ** rng.integers(-1, 4)
    if rng.random() < 0.3:
        gone = rng.random(y.shape) < 0.08
        gone[gone.all(axis=1), 0] = False  # such instances do not reach the stage
        y[gone] = np.nan
    if rng.random() < 0.2:
        y[0, 0] = 0.0
        y[1, 0] = y[0, 0]
        y[0, 0] = np.nanmean(np.delete(y.ravel(), 0))
    return {
        "z": z,
        "y_raw": y,
        "y_bin": y_bin,
        "y_best": np.nanmax(np.where(np.isnan(y), -np.inf, y), axis=1),
        "algo_labels": [f"a{j}" for j in range(a)],
    }


def run(p: dict[str, Any], opts: PythiaOptions, parallel: ParallelOptions | None = None) -> Any:
    return PythiaStage._run(PythiaInput(pythia_options=opts, parallel_options=parallel or ParallelOptions.default(), **p))


def ratio(a: float, b: float) -> float:
    return a / b if b else 0.0


def quality(good: np.ndarray, said: np.ndarray) -> list[float]:
    """Accuracy, precision and recall of predictions."""
    tp = int((good & said).sum())
    return [float((good == said).mean()), ratio(tp, int(said.sum())), ratio(tp, int(good.sum()))]
