"""C02: in a finished space every value belongs to its instance, feature and algorithm, from the table read to the files written."""

import os
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd

from monitor import model as mm
from monitor import pipeline as pl
from monitor.harness import Ctx, Family, main

from instancespace.data.metadata import from_csv_file
from instancespace.instance_space import InstanceSpace
from instancespace.model import Model
from monitor import data as md


def monotone(u: np.ndarray, v: np.ndarray) -> bool:
    """v never falls as u rises (missing with missing)."""
    if not np.array_equal(np.isnan(u), np.isnan(v)):
        return False
    o = np.argsort(u[~np.isnan(u)], kind="stable")
    w = v[~np.isnan(u)][o]
    return bool((np.diff(w) >= -1e-9 * (1 + np.abs(w[1:]))).all())


def case(ctx: Ctx) -> None:
    rng = ctx.rng
    n = int(rng.integers(60, 90))
    p = pl.problem(rng, n=n, wide=ctx.index % 14 == 5, missing=float(rng.choice([0, 0, 0.03])))
    x, y = p["x"], p["y"]
    gone = rng.permutation(n)[: int(rng.integers(0, 4))]
    x[gone[:2]] = np.nan  # removed at the start
    y[gone[2:]] = np.nan
    feats, algos = p["features"], p["algorithms"]
    g = p["groups"]
    mode = str(rng.choice(["all", "fraction", "file", "density", "density"]))
    sel: dict = {}
    if rng.random() < 0.5:
        sel["feats"] = [feats[i] for i in rng.permutation(len(feats))[: max(3, len(feats) - 2)]]
    if rng.random() < 0.5:
        sel["algos"] = [algos[i] for i in rng.permutation(len(algos))[: max(2, len(algos) - 1)]]
        g["pythia"]["params"] = g["pythia"]["params"][: len(sel["algos"])]
    with tempfile.TemporaryDirectory(dir=os.environ.get("ISA_SCRATCH")) as tmp:
        t = Path(tmp)
        if mode == "fraction":
            sel |= {"small_scale_flag": True, "small_scale": float(rng.choice([0.6, 0.8]))}
        elif mode == "file":
            idx = rng.permutation(n - len(gone))[: int(rng.integers(45, n - 6))] + 1
            pd.DataFrame(idx).to_csv(t / "idx.csv", index=False, header=False)
            sel |= {"file_idx_flag": True, "file_idx": str(t / "idx.csv")}
        elif mode == "density":
            sel |= {"density_flag": True, "min_distance": float(rng.choice([0.1, 0.3, 0.6])), "selvars_type": str(rng.choice(["Ftr", "Ftr&AP", "Ftr&Good", "Ftr&AP&Good"]))}
        g["selvars"] = sel
        table = pd.DataFrame({"Instances": p["labels"]})
        cols = [*[(f, x[:, j]) for j, f in enumerate(feats)], *[(a, y[:, j]) for j, a in enumerate(algos)]]
        if p["sources"] is not None:
            table["Source"] = p["sources"]
        table = pd.concat([table, pd.DataFrame(dict(cols))], axis=1)
        order = ["Instances", *[c for c in table.columns[1:][rng.permutation(table.shape[1] - 1)]]] if rng.random() < 0.4 else list(table.columns)
        table[order].to_csv(t / "metadata.csv", index=False)
        space = InstanceSpace(from_csv_file(t / "metadata.csv"), md.options(**g))
        out: dict = {}
        for ev in space.run_iter():
            out.update(ev.output._asdict())
            if ev.stage is pl.SiftedStage:
                good = out["y_bin"].sum(axis=0)
                if min(good.min(), len(out["y_bin"]) - good.max()) < 5:  # classifiers need both kinds of instances
                    ctx.event("one_sided")
                    return
        m = Model.from_stage_runner_output(out, space.options)
        names = {c: c for c in [*feats, *algos]}
        row = {lab: i for i, lab in enumerate(p["labels"])}
        d = m.data
        labs = [str(v) for v in d.inst_labels]
        ctx.require(len(set(labs)) == len(labs) and set(labs) <= set(row), "instances", "instances that are not in the table, or twice")
        if set(labs) - set(row):
            return
        at = np.array([row[v] for v in labs])
        k = len(d.feat_labels)
        ctx.event(mode)
        if len(labs) < n - len(gone):
            ctx.event("subset_taken")

        def labelled(what: str, got: list, universe: list, wanted: list | None) -> list[int]:
            """Column of the table for each label in the result."""
            res = []
            for lab in got:
                hit = [j for j, u in enumerate(universe) if u == lab or u.split("_", 1)[1] == lab]
                if not ctx.require(len(hit) == 1, what, lambda: f"{what} {lab!r} is none of {universe}"):
                    return []
                res.append(hit[0])
            if wanted is not None:
                ctx.require({universe[j] for j in res} <= set(wanted), what, lambda: f"{what} {got}, asked for {wanted}")
            return res

        fi = labelled("feature", list(d.feat_labels), feats, sel.get("feats"))
        ai = labelled("algorithm", list(d.algo_labels), algos, sel.get("algos"))
        if not fi or not ai:
            return
        ctx.require(len(ai) == len(sel.get("algos", algos)), "algorithm", f"{len(ai)} algorithms left")
        shapes = {"x": (len(at), k), "y": (len(at), len(ai)), "y_raw": (len(at), len(ai)), "y_bin": (len(at), len(ai))}
        for name, want in shapes.items():
            if not ctx.require(getattr(d, name).shape == want, "shape", lambda: f"{name} has shape {getattr(d, name).shape}, expected {want}"):
                return
        # values from the table
        raw = d.x_raw[:, m.sifted.idx]
        ctx.require(md.same(raw, x[np.ix_(at, fi)]), "features", "raw features are not those in the table for these instances and features")
        ctx.require(md.same(d.y_raw, y[np.ix_(at, ai)]), "performances", "raw performances are not those in the table for these instances and algorithms")
        if p["sources"] is not None:
            ctx.require([str(v) for v in d.s] == [p["sources"][i] for i in at], "sources", "sources belong to other instances")
            ctx.event("sources")
        for j in range(k):
            ctx.event("column")
            ctx.require(monotone(raw[:, j], d.x[:, j]), "processed-feature", lambda: f"feature {d.feat_labels[j]!r} as used is not in the order of its values")
        up, eps = g["perf"]["max_perf"], g["perf"]["epsilon"]
        for j in range(len(ai)):
            ctx.event("column")
            ctx.require(monotone(d.y_raw[:, j], d.y[:, j]), "processed-performance", lambda: f"performance of {d.algo_labels[j]!r} as used is not in the order of its values")
        good = np.where(np.isnan(d.y_raw), False, d.y_raw >= eps if up else d.y_raw <= eps)
        ctx.require(np.array_equal(d.y_bin, good), "good", "an algorithm is good where its performance is not, or the other way around")
        best = (np.nanmax if up else np.nanmin)(d.y_raw, axis=1)
        chosen = d.y_raw[np.arange(len(at)), np.asarray(d.p, dtype=int) - 1]
        ctx.require(md.same(d.y_best, best) and md.same(chosen, best), "best", "the best performance or algorithm is not that of the instance")
        ctx.require(md.same(d.num_good_algos, good.sum(1)) and np.array_equal(d.beta, good.sum(1) > 0.55 * len(ai)), "counts", "counts of good algorithms are not those of the instance")
        # what is made of them
        ctx.require(m.pilot.a.shape == (2, k) and md.same(m.pilot.z, d.x @ m.pilot.a.T, rtol=1e-6, atol=1e-8), "position", "the position of an instance is not the projection of its features")
        ctx.require(m.pythia.y_hat.shape == good.shape and len(m.trace.good) == len(m.trace.best) == len(ai), "shape", "predictions or footprints for another number of algorithms")
        s0 = np.asarray(m.pythia.selection0, dtype=int)
        hit = np.array([m.pythia.y_hat[i, s0[i] - 1] if s0[i] > 0 else not m.pythia.y_hat[i].any() for i in range(len(at))])
        ctx.require(hit.all(), "selection", lambda: f"{(~hit).sum()} instances have an algorithm selected that is not predicted to be good for them")
        zn = (m.pilot.z - m.pilot.z.mean(0)) / m.pilot.z.std(0, ddof=1)
        for j in range(len(ai)):
            f = m.pythia.svm[j].decision_function(zn)
            bad = (np.abs(f) > 0.02) & ((f > 0) != m.pythia.y_hat[:, j])
            ctx.require(not bad.any(), "prediction", lambda: f"{bad.sum()} predictions for {d.algo_labels[j]!r} are not at the instance's position")
        ctx.require([str(v) for v in m.trace.summary.iloc[:, 0]] == [str(v) for v in d.algo_labels], "summary", "footprints are summarised for other algorithms")
        ctx.require([str(v) for v in m.pythia.summary.iloc[: len(ai), 0]] == [str(v) for v in d.algo_labels], "summary", "predictions are summarised for other algorithms")
        ctx.require([str(v) for v in m.pilot.summary.columns[1:]] == [str(v) for v in d.feat_labels], "summary", "the projection is summarised for other features")
        ctx.require(np.allclose(np.asarray(m.pilot.summary.iloc[:, 1:], dtype=float), m.pilot.a, atol=1e-3), "summary", "the projection's summary is not the projection")
        # to the files
        res = t / "out"
        res.mkdir()
        m.save_to_csv(res)
        for name, lookup, src in (("feature_raw.csv", feats, x), ("algorithm_raw.csv", algos, y)):
            head, rows = mm.read_table(res / name)
            js = labelled("written column", head[1:], lookup, None)
            for r in rows:
                for j, cell in zip(js, r[1:]):
                    ctx.event("written_cell")
                    ctx.require(mm.cell_is(cell, src[row[r[0]], j], tol=1e-12), "written", lambda: f"{name}: {r[0]!r} has {cell} for {lookup[j]}, the table has {src[row[r[0]], j]}")
        where = {r[0]: (float(r[1]), float(r[2])) for r in mm.read_table(res / "coordinates.csv")[1]}
        ctx.require(list(where) == labs and np.allclose(list(where.values()), m.pilot.z), "written", "coordinates are written for other instances")
    del names
    ctx.distinct(mode, len(at), d.feat_labels, ctx.index)
    ctx.sample({"mode": mode, "instances": f"{len(at)} of {n}", "features": list(d.feat_labels), "algorithms": list(d.algo_labels), "selvars": sel})


main(
    "C02",
    [Family("spaces", case, 64, 1200, 240.0)],
    rule="random tables built into finished spaces through every way of taking a subset of instances, features and algorithms; every row and column of the result traced back to the table by its label, and on to the files; distinct = subset mode, size, selected features, data",
    assumptions=["instance, feature and algorithm names are unique", "performances are judged absolutely (relative judgement: D01)"],
    required_events=["all", "fraction", "file", "density", "subset_taken", "sources", "column", "written_cell"],
)
