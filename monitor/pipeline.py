"""Whole instance spaces, small enough to be built many times."""

from __future__ import annotations

from contextlib import contextmanager
from typing import Any, Iterator

import numpy as np
import pandas as pd

from instancespace.instance_space import InstanceSpace
from instancespace.stages.cloister import CloisterStage
from instancespace.stages.pilot import PilotStage
from instancespace.stages.prelim import PrelimStage
from instancespace.stages.preprocessing import PreprocessingStage
from instancespace.stages.pythia import PythiaStage
from instancespace.stages.sifted import SiftedStage
from instancespace.stages.trace import TraceStage
from monitor import data as md

STAGES = [PreprocessingStage, PrelimStage, SiftedStage, PilotStage, PythiaStage, CloisterStage, TraceStage]


def tables(rng: np.random.Generator, n: int, k: int, a: int, missing: float = 0.0, missing_x: float = 0.0) -> tuple[np.ndarray, np.ndarray, float]:
    """Features that matter, and performances of which each algorithm has good and bad ones (below / above the returned value)."""
    base = rng.normal(size=(n, 3))
    x = base @ rng.normal(size=(3, k)) + 0.6 * rng.normal(size=(n, k))
    if rng.random() < 0.5:
        x = np.exp(x / 3)
    x = x * 10.0 ** rng.integers(-2, 3, size=k) + rng.normal(size=k) * 5
    y = np.empty((n, a))
    for j in range(a):
        v = base @ rng.normal(size=3) + 0.4 * rng.normal(size=n)
        y[:, j] = np.exp((v - np.quantile(v, rng.uniform(0.35, 0.65))) / 3)
    scale = 10.0 ** rng.integers(-1, 3)
    y *= scale
    y[rng.random(y.shape) < missing] = np.nan
    y[np.isnan(y).all(axis=1), 0] = scale
    if missing_x:
        x[rng.random(x.shape) < missing_x] = np.nan
        x[np.isnan(x).all(axis=1), 0] = 0.0
    return x, y, float(scale)


def problem(rng: np.random.Generator, n: int | None = None, missing: float = 0.0, missing_x: float = 0.0, wide: bool = False, **extra: Any) -> dict[str, Any]:
    n = n or int(rng.integers(36, 64))
    k, a = int(rng.integers(3, 8)), int(rng.integers(2, 5))
    if wide:  # more algorithms than there are digits
        k, a = int(rng.integers(4, 7)), int(rng.integers(10, 13))
    x, y, eps = tables(rng, n, k, a, missing, missing_x)
    labs = md.labels(rng, n)
    src = [f"s{int(v)}" for v in rng.integers(4, size=n)] if rng.random() < 0.6 else None
    index = None if rng.random() < 0.5 else list(rng.permutation(n) + 3)
    fn = [f"feature_{c}{j}" for j, c in enumerate(rng.permutation(list("pqrstuvw"))[:k])]
    an = [f"algo_{c}{j}" for j, c in enumerate(rng.permutation(list("ABCDEFG" if a < 8 else "ABCDEFGHIJKLM"))[:a])]
    groups: dict[str, dict[str, Any]] = {
        "perf": {"max_perf": bool(rng.random() < 0.5), "abs_perf": True, "epsilon": eps, "beta_threshold": 0.55},
        "sifted": {"flag": bool(rng.random() < 0.7), "k": int(rng.integers(2, 5)), "rho": float(rng.choice([0.05, 0.2, 0.4])),
                   "n_trees": 10, "max_iter": 20, "replicates": 2, "num_generations": 3, "sol_per_pop": 4, "num_parents_mating": 2},
        "pilot": {"analytic": bool(rng.random() < 0.5), "n_tries": int(rng.integers(1, 3))},
        "pythia": {"cv_folds": 3, "use_grid_search": True, "is_poly_krnl": bool(rng.random() < 0.3), "use_weights": bool(rng.random() < 0.4),
                   "params": np.column_stack([10.0 ** rng.uniform(-1, 2, size=a), 10.0 ** rng.uniform(-1, 1, size=a)])},
        "trace": {"use_sim": bool(rng.random() < 0.5), "purity": float(rng.choice([0.5, 0.55, 0.7]))},
        "norm": {"flag": bool(rng.random() < 0.8)}, "bound": {"flag": bool(rng.random() < 0.8)},
        "parallel": {"flag": False, "n_cores": 2},
    }
    if wide:  # (the numerical projection of so many columns takes long)
        groups["pilot"]["analytic"] = True
        groups["sifted"]["k"] = 3
    if missing:  # the analytic projection cannot be found then
        groups["pilot"]["analytic"] = False
    for g, v in extra.items():
        groups.setdefault(g, {}).update(v)
    return {"x": x, "y": y, "labels": labs, "sources": src, "index": index, "features": fn, "algorithms": an, "groups": groups}


def space(p: dict[str, Any], stages: list[Any] | None = None, **extra: Any) -> InstanceSpace:
    groups = {g: dict(v) for g, v in p["groups"].items()}
    for g, v in extra.items():
        groups.setdefault(g, {}).update(v)
    meta = md.metadata(p["x"], p["y"], p["labels"], p["sources"], p["features"], p["algorithms"], p["index"])
    return InstanceSpace(meta, md.options(**groups), **({} if stages is None else {"stages": stages}))


def unlike(a: Any, b: Any, path: str = "", tol: float = 1e-7) -> list[str]:
    """Where two outputs differ: exactly for labels and counts, up to rounding for measures."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
            return [f"{path}: {a.dtype}{a.shape} / {b.dtype}{b.shape}"]
        if a.dtype.kind == "f":
            return [] if np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True) else [f"{path}: values"]
        if a.dtype == object:
            return [d for i, (u, v) in enumerate(zip(a.ravel(), b.ravel())) for d in unlike(u, v, f"{path}[{i}]", tol)]
        return [] if np.array_equal(a, b) else [f"{path}: values"]
    if type(a) is not type(b):
        return [f"{path}: {type(a).__name__} / {type(b).__name__}"]
    if isinstance(a, pd.DataFrame):
        if list(a.columns) != list(b.columns) or list(a.index) != list(b.index):
            return [f"{path}: labels"]
        return [d for c in range(a.shape[1]) for d in unlike(a.iloc[:, c].to_numpy(), b.iloc[:, c].to_numpy(), f"{path}.{a.columns[c]}", tol)]
    if isinstance(a, pd.Series):
        return unlike(a.to_numpy(), b.to_numpy(), path, tol) + ([] if list(a.index) == list(b.index) else [f"{path}: index"])
    if isinstance(a, dict):
        if set(a) != set(b):
            return [f"{path}: keys {set(a) ^ set(b)}"]
        return [d for k in sorted(a, key=str) for d in unlike(a[k], b[k], f"{path}.{k}", tol)]
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return [f"{path}: length"]
        return [d for i, (u, v) in enumerate(zip(a, b)) for d in unlike(u, v, f"{path}[{i}]", tol)]
    if isinstance(a, (float, np.floating)):
        return [] if (np.isnan(a) and np.isnan(b)) or abs(a - b) <= tol * max(1, abs(a)) else [f"{path}: {a} / {b}"]
    if isinstance(a, (int, str, bool, np.generic)) or a is None:
        return [] if a == b else [f"{path}: {a!r} / {b!r}"]
    if hasattr(a, "symmetric_difference") and hasattr(a, "area"):
        big = max(a.area, b.area, 1e-12)
        return [] if a.symmetric_difference(b).area <= 1e-6 * big else [f"{path}: region"]
    if hasattr(a, "__dataclass_fields__"):
        return [d for f in a.__dataclass_fields__ for d in unlike(getattr(a, f), getattr(b, f), f"{path}.{f}", tol)]
    return []  # classifiers and the like: their predictions are compared


# everything the stages produce (classifiers are compared by their predictions)
KEEP = sorted({f for st in STAGES for f in st._outputs()._fields} - {"svm", "cp"})  # noqa: SLF001


def results(out: dict[str, Any]) -> dict[str, Any]:
    return {k: v for k, v in out.items() if k in KEEP}


@contextmanager
def recorded() -> Iterator[dict[str, Any]]:
    """Collects what the stages give back while they run, last value of each name."""
    got: dict[str, Any] = {}
    own = {st: st.__dict__["_run"] for st in STAGES}

    def watch(st: Any) -> Any:
        real = st._run

        def run(inputs: Any) -> Any:
            out = real(inputs)
            got.update(out._asdict())
            return out

        return run

    try:
        for st in STAGES:
            st._run = staticmethod(watch(st))
        yield got
    finally:
        for st, f in own.items():
            st._run = f
