"""D02: bounding and scaling are exactly what their recorded parameters say; raw data stay raw."""

import numpy as np
from scipy import stats

from monitor import data as d
from monitor.harness import Ctx, Family, main

from instancespace.instance_space import InstanceSpace
from instancespace.stages.prelim import PrelimStage
from instancespace.stages.preprocessing import PreprocessingStage


def midpoint_percentile(v, q):  # noqa: ANN001, ANN201
    v = np.sort(v)
    pos = q * (len(v) - 1)
    lo, hi = int(np.floor(pos + 1e-12)), int(np.ceil(pos - 1e-12))
    return v[lo] if lo == hi else (v[lo] + v[hi]) / 2


def llf(lam, v):  # noqa: ANN001, ANN201
    """Box-Cox profile log-likelihood, from its definition."""
    logs = np.log(v)
    t = logs if abs(lam) < 1e-12 else np.expm1(lam * logs) / lam
    return (lam - 1) * logs.sum() - len(v) / 2 * np.log(np.var(t))


def boxcox(lam, v):  # noqa: ANN001, ANN201
    logs = np.log(v)
    return logs if lam == 0 else np.expm1(lam * logs) / lam


def scaled(ctx: Ctx, name, shown, raw, shift, lam, mu, sigma):  # noqa: ANN001, ANN201
    """One scaled column against the raw one and the recorded parameters."""
    ok = ~np.isnan(raw)
    ctx.require(np.array_equal(np.isnan(shown), ~ok), f"{name}-missing", f"{name}: missing cells moved")
    v, u = raw[ok] - shift, shown[ok]
    if not (v > 0).all():
        ctx.violation(f"{name}-not-positive", f"{name}: shifted data not positive")
        return
    with np.errstate(all="ignore"):
        t = boxcox(lam, v)
    if not np.isfinite(t).all() or np.ptp(t) <= 1e-9 * np.abs(t).max():
        ctx.event("degenerate_transform")
        return
    ctx.event("scaled_column")
    span = np.abs(t - t.mean()).max()
    tol = 1e-7 + 1e-9 * np.abs(t).max() / span
    ctx.require(np.isclose(mu, t.mean(), rtol=1e-7, atol=1e-7 * span), f"{name}-mean", f"{name}: mean {mu} recorded, {t.mean()} observed")
    ctx.require(np.isclose(sigma, t.std(ddof=1), rtol=1e-6), f"{name}-deviation", f"{name}: deviation {sigma} recorded, {t.std(ddof=1)} observed")
    ctx.require(np.allclose(u, (t - mu) / sigma, rtol=1e-6, atol=tol * 10), f"{name}-values",
                lambda: f"{name}: scaled values are not those of the recorded parameters: {u[:4]} vs {((t - mu) / sigma)[:4]}")
    ctx.require(abs(u.mean()) < 1e-6 and abs(u.std(ddof=1) - 1) < 1e-6, f"{name}-standard", f"{name}: mean {u.mean()} deviation {u.std(ddof=1)}")
    # order is kept
    order = np.argsort(v, kind="stable")
    ctx.require((np.diff(u[order]) >= -1e-7).all(), f"{name}-order", f"{name}: scaling changed the order of values")
    # lambda maximises the likelihood (locally: the search is a local one)
    here = llf(lam, v)
    for step in (0.02, 0.1, 0.5):
        for s in (-step, step):
            with np.errstate(all="ignore"):
                there = llf(lam + s, v)
            if np.isfinite(there):
                ctx.event("likelihood_compared")
                ctx.require(there <= here + 1e-3 + 1e-7 * abs(here), f"{name}-lambda",
                            lambda: f"{name}: lambda {lam} has likelihood {here}, {lam + s} has {there}")


def case(ctx: Ctx) -> None:
    rng = ctx.rng
    n, k, a = int(rng.choice([12, 25, 60])), int(rng.integers(1, 5)), int(rng.integers(2, 5))
    if ctx.index % 25 == 7:
        n, k, a = int(rng.integers(100, 1500)), int(rng.integers(5, 30)), int(rng.integers(5, 15))
        ctx.event("large")
    x = d.features(rng, n, k)
    if rng.random() < 0.2:  # more than three quarters of a feature is one value: no spread between the quartiles
        for q in range(k):
            if rng.random() < 0.6:
                x[:, q] = np.where(rng.random(n) < 0.12, x[:, q], float(rng.integers(-2, 3)))
                ctx.event("flat_column")
    maxp, absp = bool(rng.random() < 0.5), bool(rng.random() < 0.7)
    y = d.performance(rng, x, a, positive=not (absp and rng.random() < 0.4), ties=False)
    missing = rng.random() < 0.4
    if missing:
        x, y = d.with_missing(rng, x, 0.06), d.with_missing(rng, y, 0.06)
        y[:, 0] = np.where(np.isnan(y[:, 0]), 0.5, y[:, 0])
        x = np.where(np.isnan(x).all(1, keepdims=True), 0.1, x)
    bound, norm, pre = bool(rng.random() < 0.7), bool(rng.random() < 0.7), bool(rng.random() < 0.85)
    meta = d.metadata(x, y, d.labels(rng, n), None)
    opts = d.options(perf={"max_perf": maxp, "abs_perf": absp, "epsilon": 0.2}, auto={"preproc": pre},
                     bound={"flag": bound}, norm={"flag": norm})
    out = InstanceSpace(meta, opts, stages=[PreprocessingStage, PrelimStage]).run_until_stage(PrelimStage)
    bound, norm = bound and pre, norm and pre
    keep = [j for j in range(k) if 5 * np.isnan(x[:, j]).sum() < n]
    xr = x[:, keep]
    ctx.require(d.exact(out["x_raw"], xr), "raw-features", "raw features changed")
    ctx.require(d.exact(out["y_raw"], y), "raw-performance", "raw performance changed")
    ctx.event("raw_cell", xr.size + y.size)
    # bounds
    xb = xr.copy()
    for q in range(xr.shape[1]):
        v = xr[~np.isnan(xr[:, q]), q]
        med = np.median(v)
        iqr = midpoint_percentile(v, 0.75) - midpoint_percentile(v, 0.25)
        lo, hi = med - 5 * iqr, med + 5 * iqr
        sc = np.abs(v).max()
        for name, want in (("med_val", med), ("iq_range", iqr), ("lo_bound", lo), ("hi_bound", hi)):
            ctx.event("bound_parameter")
            ctx.require(np.isclose(out[name][q], want, rtol=1e-9, atol=1e-12 * sc), f"parameter-{name}", f"{name} {out[name][q]} expected {want}")
        if bound:
            ctx.event("cell_bounded", int(((v < lo) | (v > hi)).sum()))
            xb[:, q] = np.clip(xr[:, q], lo, hi)
    yr = y
    if not absp:
        b = np.nanmax(y, 1) if maxp else np.nanmin(y, 1)
        with np.errstate(all="ignore"):
            yr = 1 - y / b[:, None] if maxp else 1 - b[:, None] / y
    if norm:
        for q in range(xb.shape[1]):
            v = xb[~np.isnan(xb[:, q]), q]
            if len(np.unique(v)) < 3:
                continue
            ctx.require(np.isclose(out["min_x"][q], v.min(), rtol=1e-9), "parameter-min_x", f"{out['min_x'][q]} vs {v.min()}")
            scaled(ctx, "feature", out["x"][:, q], xb[:, q], out["min_x"][q] - 1, out["lambda_x"][q], out["mu_x"][q], out["sigma_x"][q])
        if absp or not (y == 0).any():
            mn = np.nanmin(yr)
            ctx.require(np.isclose(out["min_y"], mn, rtol=1e-9, atol=1e-12), "parameter-min_y", f"{out['min_y']} vs {mn}")
            for q in range(a):
                if len(np.unique(yr[~np.isnan(yr[:, q]), q])) < 3 or abs(mn) > 1e-3 * np.nanmax(np.abs(yr)) / 1e-9:
                    continue
                # the shift is far below the resolution of the data: values at the minimum sit on a log singularity
                v = yr[~np.isnan(yr[:, q]), q] - mn
                if not absp or (v <= 1e-12 * max(1, np.abs(yr[~np.isnan(yr)]).max())).any():
                    perf_with_minimum(ctx, out, yr, q)
                    continue
                scaled(ctx, "performance", out["y"][:, q], yr[:, q], out["min_y"] - np.finfo(float).eps, out["lambda_y"][q], out["mu_y"][q], out["sigma_y"][q])
    else:
        ctx.event("unscaled_cell", xb.size + yr.size)
        ctx.require(d.same(out["x"], xb, 1e-9, 1e-9 * np.nanmax(np.abs(xb))), "bounded-values", lambda: f"bound={bound}: {out['x'][:3]} expected {xb[:3]}")
        if absp or not (y == 0).any():
            ctx.require(d.same(out["y"], yr, 1e-9, 1e-9), "performance-values", lambda: f"{out['y'][:3]} expected {yr[:3]}")
    ctx.distinct(bound, norm, pre, missing, maxp, absp, n, k, a, ctx.index)
    ctx.sample({"bound": bound, "norm": norm, "preproc": pre, "missing": missing, "raw": xr[:3], "processed": out["x"][:3]})


def perf_with_minimum(ctx: Ctx, out, yr, q) -> None:  # noqa: ANN001
    """Columns holding the overall minimum: judge the result, not the log of a rounding error."""
    u, v = out["y"][:, q], yr[:, q]
    ok = ~np.isnan(v)
    ctx.require(np.array_equal(np.isnan(u), ~ok), "performance-missing", "performance: missing cells moved")
    u, v = u[ok], v[ok]
    ctx.event("scaled_column_with_minimum")
    ctx.require(abs(u.mean()) < 1e-6 and abs(u.std(ddof=1) - 1) < 1e-6, "performance-standard", f"mean {u.mean()} deviation {u.std(ddof=1)}")
    order = np.argsort(v, kind="stable")
    ctx.require((np.diff(u[order]) >= -1e-6).all(), "performance-order", "scaling changed the order of values")


main(
    "D02",
    [Family("scaling", case, 1200, 20000)],
    rule="random features (normal, log-normal, outliers, discrete, correlated, wide range) and performance with missing "
    "cells x bound/norm/preproc flags x max/min x absolute/relative; distinct = configuration and data",
    assumptions=["columns are not constant (before or after bounding)", "the Box-Cox parameter is judged as a local optimum"],
    required_events=["scaled_column", "cell_bounded", "bound_parameter", "likelihood_compared", "unscaled_cell", "large", "raw_cell", "flat_column"],
)
