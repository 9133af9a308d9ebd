"""C03: what instances, sources, features and algorithms are called, and in which order the table has them, is immaterial."""

import os
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd
import shapely
from scipy.spatial.distance import pdist

from monitor import data as md
from monitor import pilot as pi
from monitor import pipeline as pl
from monitor import sift
from monitor import trace as tr
from monitor.harness import Ctx, Family, main

from instancespace.data.metadata import from_csv_file
from instancespace.data.options import CloisterOptions, PilotOptions, SiftedOptions
from instancespace.instance_space import InstanceSpace
from instancespace.stages.cloister import CloisterInput, CloisterStage
from instancespace.stages.prelim import PrelimStage
from instancespace.stages.preprocessing import PreprocessingStage

LABELS = ("feat_labels", "algo_labels", "inst_labels", "s", "pilot_summary", "pythia_summary", "trace_summary")


def renamed(rng, olds: list[str], style: int, prefix: str = "") -> dict[str, str]:
    """Other names for the same things, whose alphabetical order is another."""
    n = len(olds)
    if style == 0:
        new = [f"{v}" for v in rng.permutation(n) + 1]
    elif style == 1:
        new = ["".join(rng.choice(list("abcXYZ_ .-"), size=int(rng.integers(1, 6)))).strip() + f"q{v}" for v in rng.permutation(n)]
    elif style == 2:
        new = [f"{v:06.2f}" for v in rng.permutation(n) * 1.5]
    else:
        new = list(olds[::-1]) if len(set(olds)) == n and not prefix else [f"z{n - i:04d}" for i in range(n)]
    return dict(zip(olds, [prefix + v for v in new]))


def full(ctx: Ctx, p, names) -> dict | None:
    """Everything the stages give, for the table with these names, read from a file."""
    feats, algos = [names["f"][v] for v in p["features"]], [names["a"][v] for v in p["algorithms"]]
    with tempfile.TemporaryDirectory(dir=os.environ.get("ISA_SCRATCH")) as tmp:
        f = Path(tmp) / "metadata.csv"
        t = {"Instances": [names["i"][v] for v in p["labels"]]}
        if p["sources"] is not None:
            t["Source"] = [names["s"][v] for v in p["sources"]]
        t |= {c: p["x"][:, j] for j, c in enumerate(feats)} | {c: p["y"][:, j] for j, c in enumerate(algos)}
        pd.DataFrame(t).to_csv(f, index=False)
        g = {k: dict(v) for k, v in p["groups"].items()}
        sel = g.get("selvars", {})
        for key, kind in (("feats", "f"), ("algos", "a")):
            if sel.get(key):
                sel[key] = [names[kind][v] for v in sel[key]]
        out: dict = {}
        for ev in InstanceSpace(from_csv_file(f), md.options(**g)).run_iter():
            out.update(ev.output._asdict())
            if ev.stage is pl.SiftedStage:
                good = out["y_bin"].sum(axis=0)
                if min(good.min(), len(out["y_bin"]) - good.max()) < 5:  # classifiers need both kinds of instances
                    ctx.event("one_sided")
                    return None
        return out


def whole(ctx: Ctx) -> None:
    rng = ctx.rng
    p = pl.problem(rng, n=int(rng.integers(60, 90)), wide=ctx.index % 10 == 5)
    sel: dict = {}
    if rng.random() < 0.4:
        sel["feats"] = list(p["features"][: max(3, len(p["features"]) - 1)])
    if rng.random() < 0.3:
        sel |= {"small_scale_flag": True, "small_scale": 0.8}
    elif rng.random() < 0.4:
        sel |= {"density_flag": True, "min_distance": 0.3, "selvars_type": "Ftr"}
    p["groups"]["selvars"] = sel
    same = {k: {v: v for v in vs} for k, vs in (("f", p["features"]), ("a", p["algorithms"]), ("i", p["labels"]), ("s", set(p["sources"] or [])))}
    st = rng.integers(4, size=4)
    other = {"f": renamed(rng, p["features"], st[0], "feature_"), "a": renamed(rng, p["algorithms"], st[1], "algo_"),
             "i": renamed(rng, p["labels"], st[2]), "s": renamed(rng, sorted(set(p["sources"] or [])), st[3])}
    u = full(ctx, p, same)
    v = full(ctx, p, other)
    if not ctx.require((u is None) == (v is None), "names", "the same table under other names has other good algorithms") or u is None:
        return
    if u.get("data_dense") is not None and v.get("data_dense") is not None:
        u["data_dense"], v["data_dense"] = ({f: getattr(w["data_dense"], f) for f in ("x", "y", "x_raw", "y_raw", "y_bin", "y_best", "p", "beta", "num_good_algos")} for w in (u, v))
        ctx.event("dense")
    diff = pl.unlike({k: w for k, w in pl.results(u).items() if k not in LABELS}, {k: w for k, w in pl.results(v).items() if k not in LABELS})
    ctx.event("renamed")
    ctx.require(not diff, "names", lambda: f"renaming changes {diff[:6]} (features {other['f']}, algorithms {other['a']})")
    # labels: without their prefixes where the stages leave them out
    tail = {k: {a.split("_", 1)[-1] if k in "fa" else a: b.split("_", 1)[1] if k in "fa" else b for a, b in m.items()} for k, m in other.items()}
    for what, kind in (("feat_labels", "f"), ("algo_labels", "a"), ("inst_labels", "i"), ("s", "s")):
        if u.get(what) is None:
            ctx.require(v.get(what) is None, "labels", f"{what} only under other names")
            continue
        mapped = [other[kind].get(str(w), tail[kind].get(str(w))) for w in u[what]]
        got = [str(w) for w in v[what]]
        alt = [tail[kind].get(str(w)) for w in u[what]]
        ctx.event("label", len(got))
        ctx.require(got in (mapped, alt), "labels", lambda: f"{what}: {got[:5]} where {mapped[:5]} was expected")
    for what in ("pythia_summary", "trace_summary"):
        a, b = u[what].iloc[:, 1:], v[what].iloc[:, 1:]
        ctx.require(not pl.unlike(a, b), "summaries", lambda: f"{what} differs under other names: {pl.unlike(a, b)}")
    a, b = (np.asarray(w["pilot_summary"].iloc[:, 1:], float) for w in (u, v))
    ctx.require(md.same(a, b), "summaries", "the projection's summary differs under other names")
    ctx.distinct("names", tuple(st), sorted(sel), ctx.index)
    ctx.sample({"features": other["f"], "algorithms": other["a"], "selvars": sel})


def tables(ctx: Ctx) -> None:
    rng = ctx.rng
    n, k, a = int(rng.integers(20, 70)), int(rng.integers(3, 8)), int(rng.integers(2, 6))
    x = md.features(rng, n, k, heavy=bool(rng.random() < 0.7))
    y = md.performance(rng, x, a)
    if rng.random() < 0.4:
        x = md.with_missing(rng, x, 0.06)
    if rng.random() < 0.4:
        y = md.with_missing(rng, y, 0.08)
    if rng.random() < 0.4:
        x[rng.integers(n)] = np.nan
        x[rng.permutation(n)[: n // 3], 0] = np.nan
    rows = bool(ctx.index % 2)
    sel: dict = {}
    if not rows:
        mode = rng.integers(4)
        if mode == 1:
            sel = {"small_scale_flag": True, "small_scale": float(rng.choice([0.3, 0.7]))}
        elif mode == 2:
            sel = {"density_flag": True, "min_distance": float(rng.choice([0.1, 0.4, 1.0])), "selvars_type": str(rng.choice(["Ftr", "Ftr&AP", "Ftr&Good", "Ftr&AP&Good"]))}
    absolute = bool(rng.random() < 0.6)
    norm = bool(rng.random() < 0.7 and not sel.get("density_flag") and min(len(np.unique(y[~np.isnan(y[:, j]), j])) for j in range(a)) > 4)
    opts = md.options(perf={"max_perf": bool(rng.random() < 0.5), "abs_perf": absolute, "epsilon": float(np.nanmedian(y)) if absolute else 0.1},
                      bound={"flag": bool(rng.random() < 0.6)}, norm={"flag": norm}, selvars=sel)
    labs = md.labels(rng, n)
    src = [f"s{int(v)}" for v in rng.integers(3, size=n)] if rng.random() < 0.5 else None
    fn, an = [f"feature_f{j}" for j in range(k)], [f"algo_a{j}" for j in range(a)]
    pr, pf, pa = np.arange(n), np.arange(k), np.arange(a)
    if rows:
        pr = rng.permutation(n)
    else:
        pf, pa = rng.permutation(k), rng.permutation(a)

    def go(r, f, c):  # noqa: ANN001, ANN202
        meta = md.metadata(x[np.ix_(r, f)], y[np.ix_(r, c)], [labs[i] for i in r], None if src is None else [src[i] for i in r], [fn[i] for i in f], [an[i] for i in c])
        return InstanceSpace(meta, opts, stages=[PreprocessingStage, PrelimStage]).run_until_stage(PrelimStage)

    u, v = go(np.arange(n), np.arange(k), np.arange(a)), go(pr, pf, pa)
    key = "row-order" if rows else "column-order"
    ul, vl = [str(w) for w in u["inst_labels"]], [str(w) for w in v["inst_labels"]]
    if not ctx.require(sorted(ul) == sorted(vl) and sorted(u["feat_labels"]) == sorted(v["feat_labels"]) and sorted(u["algo_labels"]) == sorted(v["algo_labels"]), key,
                       lambda: f"other instances, features or algorithms: {len(ul)}/{len(vl)}, {u['feat_labels']}/{v['feat_labels']}"):
        return
    ctx.event(key)
    ctx.require(vl == ([w for w in (labs[i] for i in pr) if w in set(ul)] if rows else ul), key, "instances are not in the order of the table")
    at = np.array([vl.index(w) for w in ul])
    fa = np.array([list(v["feat_labels"]).index(w) for w in u["feat_labels"]])
    aa = np.array([list(v["algo_labels"]).index(w) for w in u["algo_labels"]])
    tol = {"rtol": 5e-3, "atol": 5e-3} if norm else {"rtol": 1e-9, "atol": 1e-9}
    ctx.require(u["x"].shape == v["x"].shape and md.same(u["x_raw"], v["x_raw"][np.ix_(at, fa)]) and md.same(u["y_raw"], v["y_raw"][np.ix_(at, aa)]), key, "other raw values")
    ctx.require(md.same(u["x"], v["x"][np.ix_(at, fa)], **tol), key, lambda: f"other features: {np.nanmax(np.abs(u['x'] - v['x'][np.ix_(at, fa)])):.3g}")
    ctx.require(md.same(u["y"], v["y"][np.ix_(at, aa)], **tol), key, lambda: f"other performances: {np.nanmax(np.abs(u['y'] - v['y'][np.ix_(at, aa)])):.3g}")
    ctx.require(md.exact(u["y_bin"], v["y_bin"][np.ix_(at, aa)]), key, "other good algorithms")
    for f in ("y_best", "num_good_algos", "beta"):
        ctx.require(md.same(u[f], np.asarray(v[f])[at]), key, lambda: f"other {f}")
    best = np.nanmax if opts.perf.max_perf else np.nanmin
    tied = (u["y_raw"] == best(u["y_raw"], axis=1)[:, None]).sum(axis=1) > 1
    ctx.event("tied", int(tied.sum()))
    other_p = np.asarray(v["p"], int)[at]
    same_p = np.asarray(u["p"], int)
    back = np.array([int(np.flatnonzero(aa == w - 1)[0]) + 1 for w in other_p])
    ctx.require((same_p[~tied] == back[~tied]).all(), key, "other best algorithms")
    for f in ("med_val", "iq_range", "hi_bound", "lo_bound", "min_x", "mu_x", "sigma_x"):
        ctx.event("parameter")
        ctx.require(md.same(u[f], np.asarray(v[f])[fa], rtol=5e-3, atol=1e-2), key, lambda: f"other {f}: {u[f]} / {np.asarray(v[f])[fa]}")
    ctx.distinct(rows, n, k, a, sorted(sel), ctx.index)


def chosen(ctx: Ctx) -> None:
    """Selecting features by correlation."""
    rng = ctx.rng
    n, k, a = int(rng.integers(15, 80)), int(rng.integers(3, 10)), int(rng.integers(1, 6))
    x = md.features(rng, n, k)
    y = md.performance(rng, x, a, ties=False)
    x, y = (x - x.mean(0)) / x.std(0), (y - y.mean(0)) / y.std(0)
    if rng.random() < 0.3:
        x = md.with_missing(rng, x, 0.05)
    o = SiftedOptions.default(flag=True, rho=float(rng.choice([0.1, 0.3, 0.5])), k=k)
    r, pv = sift.correlations(x, y)
    _, free, unsure = sift.by_correlation(r, pv, o.rho)
    if unsure or free:  # which feature is taken for an algorithm nothing correlates with is a matter of order
        ctx.event("order_matters")
        return
    pf, pa, pr = rng.permutation(k), rng.permutation(a), rng.permutation(n)
    seed = int(rng.integers(2**31))
    outs = []
    for f, c, rr in ((np.arange(k), np.arange(a), np.arange(n)), (pf, pa, pr)):
        inp = sift.make_input(np.random.default_rng(seed), x[np.ix_(rr, f)], y[np.ix_(rr, c)], o)
        try:
            outs.append({int(f[i]) for i in np.asarray(sift.run(inp).selvars, int)})
        except Exception as e:  # noqa: BLE001
            if type(e).__name__ != "NotEnoughFeatureError":
                raise
            outs.append(type(e).__name__)
    ctx.event("selection")
    ctx.require(outs[0] == outs[1], "selection-order", lambda: f"in another order of the table {outs[1]} are selected, not {outs[0]}")
    ctx.distinct(k, a, n, ctx.index)


def geometry(ctx: Ctx) -> None:
    rng = ctx.rng
    # projection
    x, y, labs = pi.problem(rng, big=True)
    n, k, a = len(x), x.shape[1], y.shape[1]
    pr, pf, pa = rng.permutation(n), rng.permutation(k), rng.permutation(a)
    s = np.linalg.svd(np.hstack([x, y]), compute_uv=False)
    if s[1] > 1.02 * s[2] if len(s) > 2 else True:  # two directions that stand out
        u = pi.run(x, y, labs, PilotOptions.default(analytic=True))
        v = pi.run(x[np.ix_(pr, pf)], y[np.ix_(pr, pa)], [labs[i] for i in pf], PilotOptions.default(analytic=True))
        du, dv = pdist(np.real(u.z)[pr]), pdist(np.real(v.z))
        ctx.event("projection")
        ctx.require(np.allclose(du, dv, rtol=1e-5, atol=1e-6 * du.max()), "projection-order", lambda: f"in another order of the table instances are {np.abs(du - dv).max():.3g} nearer or further (of {du.max():.3g})")
        ctx.require(np.isclose(float(np.real(u.error)), float(np.real(v.error)), rtol=1e-6), "projection-order", f"error {u.error} / {v.error}")
        ru, rv = np.real(np.asarray(u.r2)), np.real(np.asarray(v.r2))
        ctx.require(np.allclose(np.concatenate([ru[:k][pf], ru[k:][pa]]), rv, atol=1e-6), "projection-order", "other quality of the projection")
    # boundary
    n, k = int(rng.integers(15, 60)), int(rng.integers(2, 7))
    x = rng.normal(size=(n, k)) @ (np.eye(k) + 0.6 * rng.normal(size=(k, k)))
    A = rng.normal(size=(2, k))
    pr, pf = rng.permutation(n), rng.permutation(k)
    o = CloisterOptions(p_val=0.05, c_thres=float(rng.choice([0.3, 0.5, 0.7])))
    u, v = (CloisterStage._run(CloisterInput(xx, aa, o)) for xx, aa in ((x, A), (x[np.ix_(pr, pf)], A[:, pf])))  # noqa: SLF001
    for what, g, h in (("boundary", u.z_edge, v.z_edge), ("correlated boundary", u.z_ecorr, v.z_ecorr)):
        ctx.event("boundary")
        pg, ph = (shapely.MultiPoint(np.asarray(w, float)).convex_hull for w in (g, h))
        ctx.require(pg.symmetric_difference(ph).area <= 1e-9 * max(pg.area, ph.area), "boundary-order", f"in another order of the table the {what} is another")
    # footprints, algorithms in another order
    q = tr.problem(rng, a=int(rng.integers(2, 5)))
    a = q["y_bin"].shape[1]
    pa = rng.permutation(a)
    inv = np.empty(a, int)
    inv[pa] = np.arange(a)
    w = {**q, "y_bin": q["y_bin"][:, pa], "p": np.where(q["p"] >= 0, inv[q["p"]], -1)}
    f, g = tr.run(q), tr.run(w)
    for j in range(a):
        ctx.event("footprint")
        ctx.require(tr.differ(f.good[pa[j]].polygon, g.good[j].polygon) < 1e-9, "footprint-order", "the order of algorithms changes where an algorithm is good")
        ctx.require(np.isclose(f.good[pa[j]].purity, g.good[j].purity) and np.isclose(f.good[pa[j]].density, g.good[j].density), "footprint-order", "the order of algorithms changes the measures of footprints")
        if a == 2:
            ctx.event("best_footprint")
            ctx.require(tr.differ(f.best[pa[j]].polygon, g.best[j].polygon) < 1e-6, "footprint-order", "the order of algorithms changes where an algorithm is best")
    ctx.require(tr.differ(f.hard.polygon, g.hard.polygon) < 1e-9 and tr.differ(f.space.polygon, g.space.polygon) < 1e-9, "footprint-order", "the order of algorithms changes the footprint of hard instances or of the space")
    ctx.distinct("geometry", ctx.index)


main(
    "C03",
    [Family("names", whole, 48, 800, 200.0), Family("tables", tables, 400, 8000, 100.0), Family("selection", chosen, 200, 4000, 100.0), Family("geometry", geometry, 120, 3000, 100.0)],
    rule="pairs of runs on the same data: whole spaces with everything renamed (names in another alphabetical order, numbers, blanks), and stages with rows, feature columns and algorithm columns permuted; distinct = data, permutation",
    assumptions=["orders that break ties or choose at random (subsets, cross-validation folds, density filter over rows, more than two contradicting best footprints) are not judged",
                 "values after Box-Cox normalisation are compared to 0.5%, its parameters being found by search"],
    required_events=["renamed", "label", "row-order", "column-order", "selection", "projection", "boundary", "footprint", "best_footprint", "parameter"],
)
