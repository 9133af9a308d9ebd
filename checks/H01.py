"""H01: predictions, cross-validation and the quality reported for them belong together."""

import numpy as np
from scipy.stats import zscore
from sklearn.base import clone
from sklearn.svm import SVC

from monitor import data as d
from monitor import pythia as py
from monitor.harness import Ctx, Family, main

from instancespace.data.options import PythiaOptions

NEAR = 0.02  # the solver stops at 1e-3: labels this close to the boundary may go either way


def options(rng, folds: int, **kw) -> PythiaOptions:
    return PythiaOptions(
        cv_folds=folds, is_poly_krnl=bool(kw.get("poly", rng.random() < 0.3)), use_weights=bool(kw.get("weights", rng.random() < 0.4)),
        use_grid_search=kw.get("grid", bool(rng.random() < 0.8)), params=kw.get("params"),
    )


def agree(ctx: Ctx, key: str, labels, prob, model, z) -> None:
    """Labels and probabilities are those of the model at the coordinates."""
    f = model.decision_function(z)
    want, p = model.predict(z).astype(bool), model.predict_proba(z)[:, 1]
    bad = (np.asarray(labels, bool) != want) & (np.abs(f) > NEAR)
    ctx.event("prediction", len(want))
    ctx.require(not bad.any(), key + "-label", lambda: f"{bad.sum()} of {len(bad)} labels are not the model's")
    ctx.require(np.allclose(prob, p, atol=0.03), key + "-probability", lambda: f"probabilities differ by {np.abs(prob - p).max():.3f}")


def judge(ctx: Ctx, p, o: PythiaOptions, out) -> bool:
    z, y_bin, y = p["z"], p["y_bin"], p["y_raw"]
    n, a = y_bin.shape
    ok = ctx.require(np.allclose(out.mu, z.mean(0)) and np.allclose(out.sigma, z.std(0, ddof=1)), "scaling",
                     lambda: f"mean {out.mu}, deviation {out.sigma}; coordinates have {z.mean(0)}, {z.std(0, ddof=1)}")
    zn = zscore(z, ddof=1)
    shapes = [np.shape(out.y_sub), np.shape(out.y_hat), np.shape(out.pr0_sub), np.shape(out.pr0_hat), np.shape(out.w)]
    sizes = [len(v) for v in (out.svm, out.box_consnt, out.k_scale, out.accuracy, out.precision, out.recall, out.cvcmat)]
    if not ctx.require(all(s == (n, a) for s in shapes) and all(s == a for s in sizes), "shape", f"{shapes} {sizes} for {n} instances and {a} algorithms"):
        return False
    ctx.require(out.cp.get_n_splits() == o.cv_folds, "folds", f"{out.cp.get_n_splits()} folds, {o.cv_folds} asked for")
    if o.use_weights:
        want = np.abs(y - np.nanmean(y))
        want[want == 0] = np.nanmin(want[want != 0])
        want[np.isnan(want)] = np.nanmax(want)
        ctx.event("weight", n * a)
    else:
        want = np.ones((n, a))
    ctx.require(d.same(out.w, want), "weight", "weights are not the distances to the mean performance" if o.use_weights else "weights without asking for them")
    known = False
    for i in range(a):
        g = y_bin[:, i]
        model = out.svm[i]
        par = model.get_params()
        ctx.require(par["kernel"] == ("poly" if o.is_poly_krnl else "rbf"), "kernel", f"{par['kernel']}")
        ctx.require(np.isclose(par["C"], out.box_consnt[i]) and np.isclose(par["gamma"], out.k_scale[i]), "hyper-parameters",
                    f"reported {out.box_consnt[i]}, {out.k_scale[i]}, the model has {par['C']}, {par['gamma']}")
        ctx.require(2.0**-10 <= par["C"] <= 2.0**4 or o.params is not None, "range", f"C={par['C']}")
        if o.params is not None:
            ctx.require(np.allclose([par["C"], par["gamma"]], np.asarray(o.params)[i]), "given", f"given {o.params[i]}, used {par['C']}, {par['gamma']}")
            ctx.event("given_parameters")
        agree(ctx, "model", out.y_hat[:, i], out.pr0_hat[:, i], model, zn)
        # a model trained on this algorithm's labels and weights, and nothing else
        agree(ctx, "trained", out.y_hat[:, i], out.pr0_hat[:, i], clone(model).fit(zn, g, sample_weight=want[:, i].copy()), zn)
        # held-out predictions come from models that did not see the instance
        bad = np.zeros(n, bool)
        off = 0.0
        for tr, te in out.cp.split(zn, g):
            alts = [clone(model).fit(zn[tr], g[tr])]
            if o.use_weights:
                alts.append(clone(model).fit(zn[tr], g[tr], sample_weight=want[tr, i].copy()))
            b = [(np.asarray(out.y_sub[te, i], bool) != m.predict(zn[te]).astype(bool)) & (np.abs(m.decision_function(zn[te])) > NEAR) for m in alts]
            q = [np.abs(out.pr0_sub[te, i] - m.predict_proba(zn[te])[:, 1]).max() for m in alts]
            k = int(np.argmin([x.sum() for x in b]))
            bad[te] = b[k]
            off = max(off, min(q))
            ctx.event("fold")
        ctx.require(not bad.any(), "held-out", lambda: f"{bad.sum()} cross-validated labels are not those of models trained without the instance")
        ctx.require(off < 0.05, "held-out-probability", lambda: f"cross-validated probabilities differ by {off:.3f}")
        s = np.asarray(out.y_sub[:, i], bool)
        cm = [np.sum(~g & ~s), np.sum(~g & s), np.sum(g & ~s), np.sum(g & s)]
        ctx.require(list(np.asarray(out.cvcmat[i])) == cm, "confusion", lambda: f"reported {out.cvcmat[i]}, predictions give {cm}")
        got3 = [out.accuracy[i], out.precision[i], out.recall[i]]
        ok3 = np.allclose(got3, py.quality(g, s))
        if not ok3 and np.allclose(got3, py.quality(g, np.asarray(out.y_hat[:, i], bool))):
            known = True
        else:
            ctx.require(ok3, "quality", lambda: f"accuracy, precision, recall reported {got3}, cross-validated predictions give {py.quality(g, s)}")
        ctx.event("model")
        if (s != np.asarray(out.y_hat[:, i], bool)).any():
            ctx.event("optimistic_training_labels")
    ctx.require(not known, "quality-on-training-data", "the reported accuracy, precision and recall are those on the training instances, not cross-validated")
    return ok


def unchanged(ctx: Ctx, p, q) -> None:
    for k in p:
        ctx.require(p[k] == q[k] if isinstance(p[k], list) else d.exact(p[k], q[k]), "input-changed", f"{k} was changed")


def given(ctx: Ctx) -> None:
    rng = ctx.rng
    folds = int(rng.integers(2, 7))
    large = ctx.index % 50 == 7
    p = py.problem(rng, folds, n=int(rng.integers(250, 900)), a=int(rng.integers(10, 14) if ctx.index % 100 == 7 else 3)) if large else py.problem(rng, folds)
    ctx.event("large", int(large))
    a = p["y_bin"].shape[1]
    poly = bool(rng.random() < 0.4)  # (polynomials with large parameters take the solver minutes)
    params = 2.0 ** rng.uniform(-6, 1 if poly else 4, size=(a, 2))
    o = options(rng, folds, grid=True, poly=poly, params=params.tolist() if rng.random() < 0.5 else params)
    q = {k: (v.copy() if not isinstance(v, list) else list(v)) for k, v in p.items()}
    out = py.run(p, o)
    unchanged(ctx, p, q)
    judge(ctx, p, o, out)
    ctx.distinct(p["y_bin"].shape, folds, o.is_poly_krnl, o.use_weights, ctx.index)
    # algorithms are independent of each other
    if not o.use_weights and a > 1:
        r = rng.permutation(a)
        p2 = dict(p, y_raw=p["y_raw"][:, r], y_bin=p["y_bin"][:, r])
        out2 = py.run(p2, PythiaOptions(folds, o.is_poly_krnl, False, True, params[r]))
        ctx.event("reordered")
        ctx.require(d.exact(out2.y_hat, out.y_hat[:, r]) and d.exact(out2.y_sub, out.y_sub[:, r]) and d.same(out2.pr0_hat, out.pr0_hat[:, r]),
                    "independent", "an algorithm's predictions depend on the order of the algorithms")
    ctx.sample({"instances": len(p["z"]), "algorithms": a, "folds": folds, "cvcmat": out.cvcmat})


def searched(ctx: Ctx) -> None:
    rng = ctx.rng
    folds = int(rng.integers(2, 4))
    bayes = ctx.family == "bayes"
    p = py.problem(rng, folds, n=int(rng.integers(24, 40)), a=1 if bayes else int(rng.integers(1, 3)))
    o = options(rng, folds, grid=ctx.family == "grid")
    if rng.random() < 0.3:  # the wrong number of hyper-parameters is reported and ignored
        o = PythiaOptions(folds, o.is_poly_krnl, o.use_weights, o.use_grid_search, np.ones((p["y_bin"].shape[1] + 1, 2)))
        ctx.event("wrong_parameters")
    out = py.run(p, o)
    judge(ctx, p, PythiaOptions(folds, o.is_poly_krnl, o.use_weights, o.use_grid_search, None), out)
    ctx.event("search", len(out.svm))
    if ctx.tier == "thorough" or not bayes:
        again = py.run(p, o)
        ctx.event("rerun")
        ctx.require(d.exact(again.y_hat, out.y_hat) and d.exact(again.y_sub, out.y_sub) and d.exact(np.asarray(again.box_consnt), np.asarray(out.box_consnt)),
                    "repeat", "a second run gives different predictions")
    if not bayes:
        ctx.event("grid_search")
    ctx.distinct(p["y_bin"].shape, folds, o, ctx.index)


def onesided(ctx: Ctx) -> None:
    rng = ctx.rng
    p = py.problem(rng, 2, n=30, a=2)
    p["y_bin"][:, 0] = bool(ctx.index % 2)
    out = py.run(p, PythiaOptions(2, False, False, True, np.ones((2, 2))))
    ctx.event("one_sided")
    ctx.require((out.y_hat[:, 0] == bool(ctx.index % 2)).all(), "one-sided", "predicted a class that does not occur")
    ctx.distinct(ctx.index)


main(
    "H01",
    [Family("given", given, 200, 4000), Family("grid", searched, 16, 300), Family("bayes", searched, 1, 16, 800.0), Family("one-sided", onesided, 4, 12)],
    rule="random instances in two dimensions (linear, radial and noisy good regions, duplicates, 15-85% good) x kernel x weights x folds x "
    "given / grid / Bayesian hyper-parameters; distinct = sizes, options and data",
    assumptions=["scikit-learn's SVC, StratifiedKFold and search classes are trusted", "each class occurs more often than there are folds, except in family one-sided"],
    required_events=["prediction", "fold", "model", "weight", "given_parameters", "optimistic_training_labels", "reordered", "grid_search", "rerun", "large"],
)
