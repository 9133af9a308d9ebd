"""D01: good / best / winning algorithm / easy-instance labels follow their definitions."""

import numpy as np

from monitor import data as d
from monitor.harness import Ctx, Family, main

from instancespace.instance_space import InstanceSpace
from instancespace.stages.prelim import PrelimStage
from instancespace.stages.preprocessing import PreprocessingStage


def problem(rng, relative, large=False):  # noqa: ANN001, ANN201
    n, k, a = int(rng.choice([6, 12, 30])), int(rng.integers(1, 4)), int(rng.integers(1, 8))
    if large:
        n, k, a = int(rng.integers(100, 1500)), int(rng.integers(1, 4)), int(rng.integers(8, 30))
    x = rng.normal(size=(n, k))
    style = str(rng.choice(["cont", "grid", "zeros", "big", "signed"] if not relative else ["cont", "grid", "zeros", "big"]))
    if style == "cont":
        y = rng.random((n, a))
    elif style in ("grid", "zeros"):
        y = rng.integers(0, 5, size=(n, a)) / 4
        if style == "zeros":
            y[rng.random((n, a)) < 0.4] = 0.0
            y[rng.integers(n)] = 0.0
    elif style == "big":
        y = rng.random((n, a)) * 10.0 ** rng.integers(-3, 6)
    else:
        y = rng.normal(size=(n, a)) * 10
    missing = rng.random() < 0.4
    if missing:
        y = d.with_missing(rng, y, 0.15)
        for i in range(n):
            if np.isnan(y[i]).all():
                y[i, rng.integers(a)] = 0.5
    return x, y, style, missing


def case(ctx: Ctx) -> None:
    rng = ctx.rng
    maxp, absp = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
    x, y, style, missing = problem(rng, not absp, ctx.index % 25 == 7)
    n, a = y.shape
    vals = y[~np.isnan(y)]
    inf = not maxp and a > 1 and rng.random() < 0.12  # costs: "did not finish"
    if inf:
        for i in range(n):
            fin = np.flatnonzero(~np.isnan(y[i]))
            drop = fin[1:][rng.random(len(fin) - 1) < 0.3]
            y[i, drop] = np.inf
        ctx.event("did_not_finish", int(np.isinf(y).sum()))
    if absp:
        eps = float(rng.choice(vals)) if rng.random() < 0.6 else float(rng.uniform(vals.min(), vals.max() + 1e-9))
        if rng.random() < 0.3:  # just beside an observed value: the definition knows no tolerance
            eps = float(rng.choice(vals))
            eps = float(np.nextafter(eps, rng.choice([-np.inf, np.inf]))) if rng.random() < 0.5 else eps * (1 + float(rng.choice([-1, 1])) * 1e-11)
            ctx.event("beside_threshold")
    else:
        eps = float(rng.choice([0.0, 0.01, 0.05, 0.2, 0.5]))
    thr = float(rng.choice([0.0, 0.25, 0.5, 0.55, 0.75, 1.0]))
    meta = d.metadata(x, y, d.labels(rng, n), None)
    bound, norm = bool(rng.random() < 0.5), bool(rng.random() < 0.3 and not missing and not inf)
    if norm and any(len(np.unique(y[:, j])) < 3 for j in range(a)):
        norm = False
    opts = d.options(
        perf={"max_perf": maxp, "abs_perf": absp, "epsilon": eps, "beta_threshold": thr},
        bound={"flag": bound}, norm={"flag": norm},
    )
    out = InstanceSpace(meta, opts, stages=[PreprocessingStage, PrelimStage]).run_until_stage(PrelimStage)
    y_bin, best, p, good, beta = (np.asarray(out[q]) for q in ("y_bin", "y_best", "p", "num_good_algos", "beta"))
    ctx.require(y_bin.shape == (n, a) and best.shape == p.shape == good.shape == beta.shape == (n,), "shape", "wrong shapes")
    tiny = np.finfo(float).eps
    for i in range(n):
        have = [v for v in y[i] if v == v]
        b = max(have) if maxp else min(have)
        ctx.require(abs(best[i] - b) <= 2 * tiny, "best-value", lambda: f"best of {y[i]} reported as {best[i]} (max={maxp})")
        ctx.event("best_value")
        w = int(p[i]) - 1
        ctx.require(0 <= w < a and y[i, w] == b, "winner", lambda: f"winner {p[i]} of {y[i]} (max={maxp})")
        if sum(v == b for v in have) > 1:
            ctx.event("tie")
        if b == 0 and not absp:
            ctx.event("zero_best_relative")
        cnt = 0
        for j in range(a):
            v = y[i, j]
            if v != v:
                want = False
                ctx.event("missing_performance")
            elif absp:
                want = v >= eps if maxp else v <= eps
                if v == eps:
                    ctx.event("exactly_at_threshold")
            elif v == b:
                want = True  # the best algorithm is within any margin of the best
            elif b == 0 and maxp:
                want = True  # nothing positive: cannot happen for non-negative performance
            elif not maxp and b == 0:
                want = False
            else:
                gap = 1 - v / b if maxp else 1 - b / v
                if abs(gap - eps) < 1e-9:
                    ctx.event("too_close_to_call")
                    cnt += bool(y_bin[i, j])
                    continue
                want = gap <= eps
            cnt += want
            ctx.event("goodness")
            ctx.require(bool(y_bin[i, j]) == bool(want), f"good-{'max' if maxp else 'min'}-{'abs' if absp else 'rel'}",
                        lambda: f"performance {y[i].tolist()}[{j}] eps={eps} max={maxp} abs={absp}: good={y_bin[i, j]}")
        ctx.require(good[i] == cnt, "number-good", lambda: f"{good[i]} good algorithms reported, {cnt} are")
        if abs(cnt - thr * a) > 1e-9 or thr in (0.0, 0.25, 0.5, 0.75, 1.0):
            ctx.event("easy_label")
            ctx.require(bool(beta[i]) == (cnt > thr * a), "easy", lambda: f"beta={beta[i]} with {cnt}/{a} good, threshold {thr}")
    ctx.require(d.exact(out["y_raw"], y), "raw-performance", "raw performance changed")
    ctx.distinct(maxp, absp, style, missing, n, a, eps, thr, bound, norm)
    ctx.sample({"max": maxp, "abs": absp, "epsilon": eps, "threshold": thr, "performance": y[:3], "good": y_bin[:3]})


main(
    "D01",
    [Family("labels", case, 2000, 40000)],
    rule="random performance tables (continuous, tied, zeros, wide range, signed, missing cells) x max/min x "
    "absolute/relative x thresholds, half of them exactly equal to an observed value; distinct = configuration",
    assumptions=["relative performance is only specified for non-negative performance values",
                 "relative gaps within 1e-9 of the margin are not judged"],
    required_events=["goodness", "best_value", "tie", "missing_performance", "exactly_at_threshold",
                     "zero_best_relative", "easy_label", "beside_threshold", "did_not_finish"],
)
