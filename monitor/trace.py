"""Inputs for the footprint stage, and an independent construction of footprints."""

from __future__ import annotations

from math import ceil, gamma, pi
from typing import Any

import alphashape
import numpy as np
import shapely
from shapely.geometry import MultiPoint, Polygon
from shapely.ops import triangulate, unary_union

from instancespace.data.options import ParallelOptions, TraceOptions
from instancespace.stages.trace import TraceInputs, TraceStage


def problem(rng: np.random.Generator, big: bool = False, a: int | None = None, n: int | None = None) -> dict[str, Any]:
    """Instances in a plane; each algorithm is best around a centre, more or less clearly."""
    n = n or int(rng.integers(12, 130 if big else 60))
    a = a or int(rng.integers(1, 5))
    z = rng.normal(size=(n, 2)) * rng.uniform(0.5, 2.5)
    style = rng.integers(6)
    if style == 1:  # two groups
        z[: n // 2] += 3
    elif style == 2:  # instances on top of each other
        z[rng.integers(n, size=n // 3)] = z[rng.integers(n, size=n // 3)]
    elif style == 3:
        z *= 10.0 ** rng.uniform(-1.5, 1)
    elif style == 5:  # many groups
        n = max(n, 45)
        c = int(rng.integers(7, 12))
        at = np.stack(np.meshgrid(np.arange(4), np.arange(3)), -1).reshape(-1, 2)[rng.permutation(12)[:c]] * 4.0
        z = at[np.arange(n) % c] + rng.normal(size=(n, 2)) * 0.25
    cen = rng.normal(size=(a, 2)) * z.std()
    noise = rng.choice([0.0, 0.3, 1.0, 3.0]) * z.std()
    score = np.linalg.norm(z[:, None] - cen[None], axis=2) + noise * rng.exponential(size=(n, a))
    p = np.argmin(score, axis=1)
    if rng.random() < 0.3:  # nothing selected for some
        p = np.where(rng.random(n) < 0.2, -1, p)
    y_bin = score <= score.min(axis=1, keepdims=True) * rng.choice([1.05, 1.5, 3.0])
    if rng.random() < 0.15:
        y_bin[:, 0] = True
    if rng.random() < 0.15:
        y_bin[:, -1] = False
    beta = y_bin.sum(axis=1) > rng.choice([0.3, 0.55, 0.9]) * a
    return {"z": z, "y_bin": y_bin, "p": p, "beta": beta, "purity": float(rng.choice([0.1, 0.25, 1 / 3, 0.4, 0.5, 0.5, 0.55, 2 / 3, 0.75, 0.9]))}


def run(q: dict[str, Any], sim: bool = True, cores: int = 3, flag: bool = False, labels: list[str] | None = None) -> Any:
    a = q["y_bin"].shape[1]
    other_p, other_y = np.full_like(q["p"], -1), np.zeros_like(q["y_bin"])
    return TraceStage._run(
        TraceInputs(
            z=q["z"], selection0=q["p"] if sim else other_p, p=other_p if sim else q["p"], beta=q["beta"],
            algo_labels=labels or [f"a{j}" for j in range(a)], y_hat=q["y_bin"] if sim else other_y, y_bin=other_y if sim else q["y_bin"],
            trace_options=TraceOptions(sim, q["purity"]), parallel_options=ParallelOptions(flag, cores),
        ),
    )


def inside(g: Any, pts: np.ndarray) -> np.ndarray:
    if g is None or g.is_empty or len(pts) == 0:
        return np.zeros(len(pts), bool)
    return shapely.contains_xy(g, pts[:, 0], pts[:, 1])


def clusters(pts: np.ndarray, k: int) -> list[np.ndarray]:
    """Groups of points linked by distances up to a radius, with a point that has k neighbours."""
    m = len(pts)
    span = pts.max(axis=0) - pts.min(axis=0)
    eps = (span.prod() * k * gamma(2.0) / (m * pi)) ** 0.5
    near = np.sqrt(((pts[:, None] - pts[None]) ** 2).sum(-1)) <= eps
    left, out = set(range(m)), []
    while left:
        grp, todo = set(), [min(left)]
        while todo:
            i = todo.pop()
            if i in grp:
                continue
            grp.add(i)
            todo += [int(j) for j in np.flatnonzero(near[i]) if j not in grp]
        left -= grp
        idx = np.array(sorted(grp))
        if (near[idx].sum(axis=1) >= k + 1).any():
            out.append(pts[idx])
    return out


def fit(pts: np.ndarray, z: np.ndarray, good: np.ndarray, purity: float) -> Any:
    g = alphashape.alphashape(pts, 2.15).simplify(0.05)
    if good.all() or g.is_empty:
        return g
    for piece in triangulate(g):
        m = inside(piece, z)
        if m.any() and (m & good).sum() / m.sum() < purity:
            g = g.difference(piece)
    return g


def build(z: np.ndarray, good: np.ndarray, purity: float) -> Any:
    pts = np.unique(z[good], axis=0)
    if len(pts) < 3:
        return None
    k = max(min(ceil(good.sum() / 20), 50), 3)
    out: Any = Polygon()
    for c in clusters(pts, k):
        if len(c) >= 3:
            g = fit(c, z, good, purity)
            if not g.is_empty:
                out = g if out.is_empty else out.union(g)
    return out.buffer(0.01).buffer(-0.01)


def tight(g: Any, z: np.ndarray, good: np.ndarray, purity: float) -> Any:
    parts = []
    for s in g.geoms if g.geom_type == "MultiPolygon" else [g]:
        pts = np.unique(z[inside(s, z) & good], axis=0)
        if len(pts) >= 3:
            f = fit(pts, z, good, purity)
            if not f.is_empty:
                parts.append(f)
    return unary_union(parts) if parts else None


def contra(g: Any, h: Any, z: np.ndarray, gb: np.ndarray, hb: np.ndarray, purity: float, seen: Any) -> tuple[Any, Any]:
    if g is None or h is None:
        return g, h
    c = g.intersection(h)
    for t in (1, 2, 3):
        if c.is_empty:
            break
        m = inside(c, z)
        ng, nh = (m & gb).sum(), (m & hb).sum()
        if ng == nh:
            seen("tie")
            break
        seen("contradiction")
        if ng > nh:
            h = h.difference(c)
            h = tight(h, z, hb, purity) if t < 3 else h
        else:
            g = g.difference(c)
            g = tight(g, z, gb, purity) if t < 3 else g
        if g is None or h is None or g.is_empty or h.is_empty:
            seen("emptied")
            break
        c = g.intersection(h)
        if t > 1 and not c.is_empty:
            seen("third_try")
    return g, h


def footprints(q: dict[str, Any], seen: Any = lambda _k: None) -> dict[str, Any]:
    z, y, p, pu = q["z"], q["y_bin"], q["p"], q["purity"]
    a = y.shape[1]
    best = [build(z, p == j, pu) for j in range(a)]
    first = list(best)
    for i in range(a):
        for j in range(i + 1, a):
            best[i], best[j] = contra(best[i], best[j], z, p == i, p == j, pu, seen)
    return {
        "space": build(z, np.ones(len(z), bool), pu), "good": [build(z, y[:, j], pu) for j in range(a)],
        "best": best, "first": first, "hard": build(z, ~q["beta"], pu),
    }


def differ(g: Any, h: Any) -> float:
    """How much of the two regions is not common, relative to their size."""
    ga, ha = (0.0 if v is None else v.area for v in (g, h))
    if ga == 0 or ha == 0:
        return 0.0 if ga == ha else 1.0
    return float(g.symmetric_difference(h).area / max(ga, ha))


def parts(out: Any, q: dict[str, Any]) -> list[tuple[str, Any, np.ndarray]]:
    """Every footprint with the instances it is about."""
    a = q["y_bin"].shape[1]
    return [
        ("space", out.space, np.ones(len(q["z"]), bool)), ("hard", out.hard, ~q["beta"]),
        *[(f"good {j}", out.good[j], q["y_bin"][:, j]) for j in range(a)],
        *[(f"best {j}", out.best[j], q["p"] == j) for j in range(a)],
    ]


__all__ = ["MultiPoint"]
