"""F01: the features that are kept are exactly those the correlation rule keeps, with their own columns and names."""

import numpy as np

from monitor import data as d
from monitor import sift
from monitor.harness import Ctx, Family, main

from instancespace.data.options import SiftedOptions
from instancespace.stages.sifted import NotEnoughFeatureError


def problem(rng, k, large=False):  # noqa: ANN001, ANN201
    n, a = int(rng.choice([15, 30, 80])), int(rng.integers(1, 5))
    if large:
        n, a = int(rng.integers(100, 1500)), int(rng.integers(5, 16))
    x = rng.normal(size=(n, k))
    y = np.empty((n, a))
    for j in range(a):
        w = np.where(rng.random(k) < 0.4, rng.normal(size=k), 0) * rng.choice([0.2, 1.0])
        y[:, j] = x @ w + rng.uniform(0.1, 2) * rng.normal(size=n)
    if rng.random() < 0.3:
        x, y = d.with_missing(rng, x, 0.05), d.with_missing(rng, y, 0.05)
    return x, y


def same_rows(ctx: Ctx, inp, out, what):  # noqa: ANN001, ANN201
    for nm in sift.ROWS:
        ctx.event("row_quantity")
        ctx.require(d.exact(getattr(out, nm), getattr(inp, nm)), f"rows-{nm}", f"{what}: {nm} changed")
    ctx.require(list(out.inst_labels) == list(inp.inst_labels), "labels", f"{what}: labels changed")
    ctx.require((out.s is None) == (inp.s is None) and (inp.s is None or list(out.s) == list(inp.s)), "sources", f"{what}: sources changed")


def columns(ctx: Ctx, inp, out, what):  # noqa: ANN001, ANN201
    """Columns, names and indices of the kept features belong together.  Returns the kept indices."""
    kept = [int(i) for i in np.asarray(out.selvars)]
    ctx.event("kept_feature", len(kept))
    if not ctx.require(all(0 <= i < inp.x.shape[1] for i in kept) and len(set(kept)) == len(kept), "indices", f"{what}: {kept}"):
        return None
    ctx.require(kept == [int(i) for i in np.asarray(out.idx)], "idx", f"{what}: {out.idx} vs {kept}")
    ctx.require(d.exact(out.x, inp.x[:, kept]), "columns", f"{what}: columns are not those of the kept features {kept}")
    ctx.require([str(l) for l in out.feat_labels] == [inp.feat_labels[i] for i in kept], "names", f"{what}: names {out.feat_labels} for {kept}")
    return kept


def rule(ctx: Ctx) -> None:
    rng = ctx.rng
    large = ctx.index % 25 == 7
    k = int(rng.integers(13, 50) if large else rng.integers(4, 13))
    x, y = problem(rng, k, large)
    ctx.event("large", int(large))
    thr = float(rng.choice([0.1, 0.3, 0.5, 0.7, 0.95]))
    inp = sift.make_input(rng, x, y, SiftedOptions.default(rho=thr, k=60))
    x0, y0 = x.copy(), y.copy()
    r, p = sift.correlations(x, y)
    must, free, unsure = sift.by_correlation(r, p, thr)
    try:
        out = sift.run(inp)
    except NotEnoughFeatureError:
        ctx.event("not_enough")
        ctx.require(len(must) <= 1 or unsure, "refused", f"{len(must)} features should be kept: {sorted(must)}")
        return
    ctx.require(d.exact(x, x0) and d.exact(y, y0), "input-changed", "the inputs changed")
    kept = columns(ctx, inp, out, "rule")
    same_rows(ctx, inp, out, "rule")
    if kept is None:
        return
    ctx.require(kept == sorted(kept), "order", f"{kept}")
    if not unsure:
        ctx.event("rule_decided")
        ctx.require(must <= set(kept), "dropped", lambda: f"kept {kept}, but {sorted(must - set(kept))} should be (threshold {thr}): {np.abs(r).max(1)}")
        ctx.require(len(set(kept) - must) <= free, "kept-too-many", lambda: f"kept {kept}, only {sorted(must)} should be (threshold {thr})")
        ctx.event("negative_correlation_kept", sum(bool(r[i][np.argmax(np.abs(r[i]))] < 0) for i in kept))
        ctx.event("feature_dropped", k - len(kept))
    ctx.event("correlation", r.size)
    ctx.require(d.same(out.rho, r, 1e-6, 1e-9), "correlations", "reported correlations are not those of the data")
    ctx.require(d.same(out.pval, p, 1e-5, 1e-12), "p-values", "reported p-values are not those of the data")
    # the threshold is the lowest acceptable correlation: a feature exactly at it is kept
    at = [(i, j) for i in range(k) for j in range(r.shape[1]) if p[i, j] < 0.04 and 0 < abs(r[i, j]) < np.abs(r[:, j]).max() - 1e-6]
    if not large and at and rng.random() < 0.4:
        i, j = at[int(rng.integers(len(at)))]
        edge = float(np.abs(np.asarray(out.rho)[i, j]))
        try:
            again = sift.run(inp._replace(sifted_options=SiftedOptions.default(rho=edge, k=60)))
        except NotEnoughFeatureError:
            again = None
        if again is not None:
            ctx.event("at_the_threshold")
            ctx.require(i in [int(q) for q in np.asarray(again.selvars)], "edge", lambda: f"feature {i} has correlation {edge}, exactly the threshold, and was dropped")
    ctx.distinct(x.shape, y.shape, thr, tuple(kept))
    ctx.sample({"threshold": thr, "strongest": np.abs(r).max(1), "kept": kept})


def skipped(ctx: Ctx) -> None:
    rng = ctx.rng
    off = rng.random() < 0.6
    k = int(rng.integers(2, 13)) if off else int(rng.integers(1, 4))
    x, y = problem(rng, k)
    inp = sift.make_input(rng, x, y, SiftedOptions.default(flag=not off, rho=0.5, k=3))
    if k == 1:
        try:
            sift.run(inp)
        except NotEnoughFeatureError:
            ctx.event("single_feature_refused")
            ctx.distinct("one", x.shape)
            return
        ctx.violation("one-feature", "a single feature was accepted")
        return
    out = sift.run(inp)
    kept = columns(ctx, inp, out, f"off={off}")
    ctx.event("selection_skipped")
    ctx.require(kept == list(range(k)), "not-skipped", f"off={off}, {k} features, kept {kept}")
    same_rows(ctx, inp, out, f"off={off}")
    ctx.distinct(off, k, x.shape, y.shape)


main(
    "F01",
    [Family("rule", rule, 1200, 20000), Family("skipped", skipped, 300, 3000)],
    rule="random problems (15-80 instances, 1-12 features, 1-4 algorithms, positive/negative/absent/weak relations, missing "
    "cells) x thresholds, clustering switched off by a large cluster count; distinct = (sizes, threshold, features kept)",
    assumptions=["an algorithm without any significant correlation may keep one arbitrary feature",
                 "p-values within 1e-6 of 0.05, correlations within 1e-9 of the threshold and exact ties are not judged"],
    required_events=["rule_decided", "correlation", "kept_feature", "negative_correlation_kept", "feature_dropped",
                     "selection_skipped", "single_feature_refused", "large", "at_the_threshold"],
)
