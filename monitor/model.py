"""Finished models with known contents, and readers for what is saved from them."""

from __future__ import annotations

import copy
import csv
import dataclasses
import hashlib
import pickle
from pathlib import Path
from typing import Any

import numpy as np
import pandas as pd
import shapely
from shapely.geometry import MultiPolygon, Point, Polygon, box
from shapely.ops import unary_union

from instancespace.data import model as dm
from instancespace.model import Model
from monitor import data as md

WORDS = ["depth", "edge_ratio", "N1", "007", "mean path", "Zürich", "k-opt", "x", "a.b", "NA", "SVM_rbf", "1.50", "F4+", "under__score", "T_1"]
TRACE_COLUMNS = [
    "Algorithm", "Area_Good", "Area_Good_Normalised", "Density_Good", "Density_Good_Normalised", "Purity_Good",
    "Area_Best", "Area_Best_Normalised", "Density_Best", "Density_Best_Normalised", "Purity_Best",
]
KEPT = [0, 2, 4, 5, 7, 9, 10]


def names(rng: np.random.Generator, k: int, prefix: str = "") -> list[str]:
    pick = rng.permutation(len(WORDS))[: min(k, len(WORDS))]
    out = [prefix + WORDS[j] for j in pick]
    return out + [f"{prefix}n{j}" for j in range(k - len(out))]


def instance_names(rng: np.random.Generator, n: int) -> list[str]:
    out = md.labels(rng, n)
    odd = ["a, b", 'say "hi"', "", " padded ", "é", "1e5", "NaN", "-0", "x;y"]
    for j, o in zip(rng.choice(n, size=min(n, int(rng.integers(0, 4))), replace=False), rng.permutation(odd)):
        if o:
            out[j] = str(o)
    return out


def region(rng: np.random.Generator) -> Any:
    """A region as footprints have: none, empty, one, several, or with holes."""
    kind = rng.integers(8)
    if kind == 0:
        return None
    if kind == 1:
        return Polygon()
    parts = []
    for _ in range(1 if kind < 4 else int(rng.integers(2, 5))):
        p = Point(rng.normal(size=2) * 3).buffer(rng.uniform(0.2, 1.5), int(rng.integers(1, 5)))
        if rng.random() < 0.4:
            a, b = rng.normal(size=2)
            p = box(a, b, a + rng.uniform(0.5, 3), b + rng.uniform(0.5, 3))
        parts.append(p)
    g = unary_union(parts)
    if kind >= 6:
        for p in list(getattr(g, "geoms", [g])):
            c = p.representative_point()
            far = c.distance(p.exterior)
            if kind == 7:  # several holes in one part
                for t in np.linspace(0, 2 * np.pi, int(rng.integers(3, 6)))[1:]:
                    g = g.difference(Point(c.x + 0.5 * far * np.cos(t), c.y + 0.5 * far * np.sin(t)).buffer(0.2 * far, 2))
            else:
                g = g.difference(c.buffer(0.6 * far, 3))
    if rng.random() < 0.3 and isinstance(g, Polygon):
        g = Polygon(list(g.exterior.coords)[::-1], [list(r.coords) for r in g.interiors])
    return g


def footprint(rng: np.random.Generator, g: Any, z: np.ndarray) -> dm.Footprint:
    if g is None:
        return dm.Footprint(None, 0, 0, 0, 0, 0)
    return dm.Footprint(g, g.area, int(rng.integers(20)), int(rng.integers(20)), float(rng.random()), float(rng.random()))


def model(rng: np.random.Generator, missing: bool | None = None, big: bool = False, use_sim: bool | None = None, size: tuple[int, int, int] | None = None) -> Model:
    n, k, a = int(rng.integers(2, 40)), int(rng.integers(1, 7)), int(rng.integers(1, 13 if big else 6))
    n, k, a = size or (n, k, a)
    missing = bool(rng.random() < 0.5) if missing is None else missing
    kr = k + int(rng.integers(0, 5))
    idx = rng.permutation(kr)[:k]
    if rng.random() < 0.5:
        idx = np.sort(idx)
    x_raw = rng.normal(size=(n, kr)) * 10.0 ** rng.integers(-3, 4, size=kr) + rng.normal(size=kr)
    y_raw = np.abs(rng.normal(size=(n, a))) * 10.0 ** rng.integers(-2, 3)
    if rng.random() < 0.4:
        y_raw = np.round(y_raw, 1)
    x, y = rng.normal(size=(n, k)), rng.normal(size=(n, a))
    if rng.random() < 0.2:  # columns of very different scales
        x_raw *= 10.0 ** rng.choice([-12.0, 0.0, 9.0], size=kr)
        x *= 10.0 ** rng.choice([-11.0, 0.0, 6.0], size=k)
    if rng.random() < 0.3:  # an algorithm that always performs the same, or at one end alone
        y_raw[:, rng.integers(a)] = 5.0
    if missing:
        for m in (x_raw, y_raw, x, y):
            m[rng.random(m.shape) < 0.15] = np.nan
            m[0, np.isnan(m).all(axis=0)] = 1.0
    p = rng.integers(0 if rng.random() < 0.5 else 1, a + 1, size=n)
    if rng.random() < 0.5:
        p[rng.integers(n)] = a
    sel = rng.integers(0 if rng.random() < 0.5 else 1, a + 1, size=n)
    y_bin, y_hat = rng.random((n, a)) < 0.5, rng.random((n, a)) < 0.5
    if rng.random() < 0.3:
        y_bin[:, 0], y_hat[:, -1] = True, False
    labs = instance_names(rng, n)
    index = rng.permutation(n * 3)[:n] if rng.random() < 0.5 else None
    z = rng.normal(size=(n, 2)) * rng.uniform(0.3, 4)
    fl, al = names(rng, k), names(rng, a, "a_" if rng.random() < 0.5 else "")
    good_count = y_bin.sum(axis=1).astype(float if rng.random() < 0.5 else int)
    data = dm.Data(
        inst_labels=pd.Series(labs, index=index), feat_labels=fl, algo_labels=al, x=x, y=y, x_raw=x_raw, y_raw=y_raw, y_bin=y_bin,
        y_best=np.nanmax(y_raw, axis=1) if not missing else y_raw[:, 0], p=p, num_good_algos=good_count, beta=good_count > 0.5 * a,
        s=pd.Series([f"s{v}" for v in rng.integers(0, 1 + (rng.integers(5) if not size or rng.random() < 0.5 else 40), size=n)], index=index) if rng.random() < 0.6 else None,
    )
    vec = np.zeros(k)
    prelim = dm.PrelimOut(vec, vec, vec, vec, vec, vec, vec, vec, 0.0, np.zeros(a), np.zeros(a), np.zeros(a))
    sifted = dm.SiftedOut(selvars=np.arange(k), idx=idx, rho=None, pval=None, silhouette_scores=None, clust=None)
    mat = np.round(rng.normal(size=(2, k)), 4)
    psum = pd.DataFrame([[f"Z_{{{i + 1}}}", *mat[i]] for i in range(2)], columns=[0 if rng.random() < 0.7 else "Row", *fl]) if rng.random() < 0.85 else None
    pilot = dm.PilotOut(None, None, None, None, a=mat, z=z, c=mat, b=mat, error=vec, r2=vec, summary=psum)
    cloister = dm.CloisterOut(z_edge=rng.normal(size=(int(rng.integers(3, 9)), 2)), z_ecorr=rng.normal(size=(int(rng.integers(3, 9)), 2)))
    rows = [*al, "Oracle", "Selector"]
    tab = rng.random((len(rows), 10)) if rng.random() < 0.3 else np.round(rng.random((len(rows), 10)), 3)
    tab[-2:, 6:] = np.nan
    cols = ["Avg_Perf_all_instances", "Std_Perf_all_instances", "Probability_of_good", "Avg_Perf_selected_instances", "Std_Perf_selected_instances",
            "CV_model_accuracy", "CV_model_precision", "CV_model_recall", "BoxConstraint", "KernelScale"]
    ysum = pd.DataFrame(tab, columns=cols)
    ysum.insert(0, "Algorithms", rows)
    pythia = dm.PythiaOut(
        mu=[0.0] * 2, sigma=[1.0] * 2, cp=None, svm=None, cvcmat=np.zeros((a, 4)), y_sub=y_hat, y_hat=y_hat, pr0_sub=rng.random((n, a)),
        pr0_hat=rng.random((n, a)), box_consnt=[1.0] * a, k_scale=[1.0] * a, precision=[1.0] * a, recall=[1.0] * a, accuracy=[1.0] * a,
        selection0=sel, selection1=np.maximum(sel, 1), summary=ysum,
    )
    tsum = pd.DataFrame(rng.random((a, 10)) if rng.random() < 0.5 else np.round(rng.random((a, 10)), 3), columns=TRACE_COLUMNS[1:])
    tsum.insert(0, "Algorithm", al)
    fps = [footprint(rng, region(rng), z) for _ in range(2 * a + 2)]
    trace = dm.TraceOut(space=fps[0], good=fps[1 : 1 + a], best=fps[1 + a : 1 + 2 * a], hard=fps[-1], summary=tsum)
    opts = md.options(trace={"use_sim": bool(rng.random() < 0.5) if use_sim is None else use_sim})
    return Model(data=data, data_dense=data, feat_sel=dm.FeatSel(idx=idx), prelim=prelim, sifted=sifted, pilot=pilot, cloister=cloister, pythia=pythia, trace=trace, opts=opts)


def freeze(o: Any) -> Any:
    """A picture of a value that can be compared later (types, shapes, contents and column names)."""
    if dataclasses.is_dataclass(o) and not isinstance(o, type):
        return (type(o).__name__, tuple((f.name, freeze(getattr(o, f.name))) for f in dataclasses.fields(o)))
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ("obj", o.shape, tuple(freeze(v) for v in o.ravel()))
        return ("arr", o.dtype.str, o.shape, hashlib.blake2b(np.ascontiguousarray(o).tobytes()).hexdigest())
    if isinstance(o, pd.DataFrame):
        return ("frame", tuple(map(repr, o.columns)), tuple(map(repr, o.index)), tuple(freeze(o[c].to_numpy()) for c in o.columns) if o.columns.is_unique else freeze(o.to_numpy()))
    if isinstance(o, pd.Series):
        return ("series", repr(o.name), tuple(map(repr, o.index)), tuple(map(repr, o)))
    if isinstance(o, shapely.Geometry):
        return ("geom", o.wkb_hex)
    if isinstance(o, dict):
        return ("dict", tuple((repr(k), freeze(v)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(freeze(v) for v in o))
    if o is None or isinstance(o, (bool, int, float, str, np.generic)):
        return repr(o)
    try:
        return ("pickle", hashlib.blake2b(pickle.dumps(o)).hexdigest())
    except Exception:  # noqa: BLE001
        return ("type", type(o).__name__)


def read_table(path: Path) -> tuple[list[str], list[list[str]]]:
    with path.open(newline="", encoding="utf-8") as fh:
        rows = list(csv.reader(fh))
    return rows[0], rows[1:]


def cell_is(text: str, value: Any, tol: float = 0.0) -> bool:
    if value is None or (isinstance(value, (float, np.floating)) and np.isnan(value)) or value is pd.NA:
        return text.strip() in ("", "nan", "NaN")
    if isinstance(value, str):
        return text == value
    if isinstance(value, (bool, np.bool_)):
        return text in (("True", "1", "1.0", "true") if value else ("False", "0", "0.0", "false"))
    try:
        got = float(text)
    except ValueError:
        return False
    return abs(got - float(value)) <= tol + 1e-12 * abs(float(value))


def rings(rows: list[list[str]]) -> list[list[tuple[float, float]]]:
    """Boundaries written one after the other; each but perhaps the last returns to its first point."""
    out: list[list[tuple[float, float]]] = []
    cur: list[tuple[float, float]] = []
    for r in rows:
        pt = (float(r[1]), float(r[2]))
        cur.append(pt)
        if len(cur) > 2 and pt == cur[0]:
            out.append(cur)
            cur = []
    if cur:
        out.append(cur)
    return out


def region_of(rows: list[list[str]]) -> Any:
    g: Any = Polygon()
    for r in rings(rows):
        if len(r) >= 3:
            g = g.symmetric_difference(Polygon(r))
    return g


def off(a: Any, b: Any) -> float:
    """How much of two regions differs, relative to their size."""
    a, b = a if a is not None else Polygon(), b if b is not None else Polygon()
    big = max(a.area, b.area)
    return 0.0 if big == 0 else a.symmetric_difference(b).area / big


def clone(m: Model) -> Model:
    return copy.deepcopy(m)
