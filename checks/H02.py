"""H02: the selected algorithm, and the summary table that describes the selections."""

import numpy as np

from monitor import pythia as py
from monitor.harness import Ctx, Family, main

from instancespace.data.model import PythiaOut
from instancespace.data.options import PythiaOptions

COLS = ["Algorithms", "Avg_Perf_all_instances", "Std_Perf_all_instances", "Probability_of_good", "Avg_Perf_selected_instances",
        "Std_Perf_selected_instances", "CV_model_accuracy", "CV_model_precision", "CV_model_recall", "BoxConstraint", "KernelScale"]


def nm(v):
    v = np.asarray(v, float).ravel()
    v = v[~np.isnan(v)]
    return v.mean() if v.size else np.nan


def ns(v):
    v = np.asarray(v, float).ravel()
    v = v[~np.isnan(v)]
    return v.std() if v.size else np.nan


def close(got, want) -> bool:
    if got == "" or (isinstance(got, float) and np.isnan(got)):
        return bool(np.isnan(want))
    return not np.isnan(want) and abs(float(got) - want) <= 0.0011 + 1e-9 * abs(want)


def case(ctx: Ctx) -> None:
    rng = ctx.rng
    folds = int(rng.integers(2, 5))
    large = ctx.index % 25 == 7
    ctx.event("large", int(large))
    p = py.problem(rng, folds, n=int(rng.integers(200, 400)), a=int(rng.integers(10, 15)), hard=1.0) if large else py.problem(rng, folds, n=int(rng.integers(20, 50)), a=1 if ctx.index % 6 == 0 else None, hard=float(rng.choice([0.3, 2.0])))
    y, g = p["y_raw"], p["y_bin"]
    n, a = g.shape
    # small penalties predict the more common class everywhere: no or little to select from
    poly = bool(rng.random() < 0.3)
    params = 2.0 ** rng.uniform(-8 if rng.random() < 0.7 else 0, 1 if poly else 3, size=(a, 2))
    if rng.random() < 0.3:
        params[:, 0] = 2.0**-10
    y_keep = y.copy()
    out = py.run(p, PythiaOptions(folds, poly, bool(rng.random() < 0.3), True, params))
    y = y_keep
    sel0, sel1 = np.asarray(out.selection0), np.asarray(out.selection1)
    if not ctx.require(sel0.shape == sel1.shape == (n,), "shape", f"{sel0.shape} {sel1.shape} for {n} instances"):
        return
    yh, prec = np.asarray(out.y_hat, bool), np.asarray(out.precision, float)
    often = g.mean(axis=0)
    for i in range(n):
        score = np.where(yh[i], prec, 0.0)
        if score.max() > 0:
            ok = 0 <= sel0[i] < a and yh[i, sel0[i]] and prec[sel0[i]] == score.max()
            ctx.event("selection" if (score > 0).sum() > 1 else "only_one_to_select")
            ctx.require(ok, "selection", lambda: f"selected {sel0[i]}; predicted good {np.flatnonzero(yh[i])}, precision {prec}")
            ctx.require(sel1[i] == sel0[i], "backup", lambda: f"backup {sel1[i]} although {sel0[i]} is selected")
        else:
            ctx.event("none_to_select")
            ctx.require(sel0[i] == -1, "none", lambda: f"selected {sel0[i]} although no algorithm is predicted good")
            ctx.require(0 <= sel1[i] < a and often[sel1[i]] == often.max(), "backup", lambda: f"backup is {sel1[i]}; good on {often}")
        if ctx.violations:
            return
    # in the model, algorithms are numbered from 1 as the best algorithms are
    model = PythiaOut.from_stage_runner_output(out._asdict())
    ctx.event("model_selection", n)
    ctx.require(np.array_equal(model.selection0, sel0 + 1) and np.array_equal(model.selection1, sel1 + 1), "model-numbering",
                "the model's selections are not numbered from 1 with 0 for none")

    s = out.pythia_summary
    if not ctx.require(list(s.columns) == COLS and list(s["Algorithms"]) == [*p["algo_labels"], "Oracle", "Selector"], "summary-shape", f"{list(s.columns)} {list(s.iloc[:, 0])}"):
        return
    rows = np.arange(n)
    has = sel0 >= 0
    full = y[rows, sel1]
    picked = y[rows[has], sel0[has]]
    tp = int(g[rows[has], sel0[has]].sum())
    want = {}
    for j in range(a):
        m = yh[:, j]
        want[j] = [nm(y[:, j]), ns(y[:, j]), g[:, j].mean(), nm(y[m, j]), ns(y[m, j]), 100 * out.accuracy[j], 100 * out.precision[j],
                   100 * out.recall[j], out.box_consnt[j], out.k_scale[j]]
    want[a] = [nm(p["y_best"]), ns(p["y_best"]), 1.0, *[np.nan] * 7]
    want[a + 1] = [nm(full), ns(full), g[rows, sel1].mean(), nm(picked), ns(picked), np.nan, 100 * py.ratio(tp, int(has.sum())),
                   100 * py.ratio(tp, int(g.sum())), np.nan, np.nan]
    for r, vals in want.items():
        for c, v in zip(COLS[1:], vals):
            ctx.event("summary_cell")
            ctx.require(close(s.iloc[r][c], float(v)), "summary", lambda: f"{s.iloc[r, 0]} {c}: {s.iloc[r][c]!r} reported, {v} from the predictions")
    if has.any() and not has.all():
        ctx.event("partial_selection")
    ctx.distinct(n, a, folds, tuple(np.unique(sel0)), ctx.index)
    ctx.sample({"selection0": np.bincount(sel0 + 1, minlength=a + 1), "precision": prec})


main(
    "H02",
    [Family("summary", case, 200, 6000)],
    rule="random prediction problems with given hyper-parameters, from useless to perfect predictions, 1-4 algorithms, missing performance; "
    "distinct = sizes, selected algorithms and data",
    assumptions=["standard deviations are over the population (as in the existing tables)", "rounded to three decimals"],
    required_events=["selection", "only_one_to_select", "none_to_select", "summary_cell", "model_selection", "large"],
)
