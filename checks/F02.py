"""F02: clustering keeps exactly one feature of each group, and the group members that predict best."""

import itertools

import numpy as np
import pandas as pd
from sklearn.metrics import silhouette_score

from monitor import data as d
from monitor import sift
from monitor.harness import Ctx, Family, main

from instancespace.data.model import DataDense
from instancespace.data.options import PilotOptions, SelvarsOptions, SiftedOptions
from instancespace.stages.pilot import PilotStage
from instancespace.utils.filter import do_filter


def grouped(rng, n, groups, sizes, noise):  # noqa: ANN001, ANN201
    """Groups of look-alike features; the first of each group is the clean one."""
    base = rng.normal(size=(n, groups))
    cols, member = [], []
    for g in range(groups):
        for q in range(sizes[g]):
            cols.append(base[:, g] + (noise if q else 0.0) * rng.normal(size=n))
            member.append((g, q))
    x = np.column_stack(cols)
    order = rng.permutation(x.shape[1])
    x = x[:, order]
    return (x - x.mean(0)) / x.std(0, ddof=1), base, [member[i] for i in order]


def options(rng, k, pop, gens):  # noqa: ANN001, ANN201
    return SiftedOptions.default(rho=0.2, k=k, max_iter=100, replicates=3, num_generations=gens, sol_per_pop=pop,
                                 num_parents_mating=2, k_tournament=2, keep_elitism=1)


def partition(ctx: Ctx, inp, out, k, what):  # noqa: ANN001, ANN201
    """Groups partition the features selected by correlation; one of each is kept.  Returns (selected, groups)."""
    r, p = sift.correlations(inp.x, inp.y)
    must, free, unsure = sift.by_correlation(r, p, inp.sifted_options.rho)
    kept = [int(i) for i in np.asarray(out.selvars)]
    ctx.require(d.exact(np.asarray(out.idx), np.asarray(out.selvars)), f"idx-{what}", f"{out.idx} vs {kept}")
    ctx.require([str(l) for l in out.feat_labels] == [inp.feat_labels[i] for i in kept], f"names-{what}", f"{out.feat_labels} for {kept}")
    if unsure or free or len(must) <= max(k, 3):
        return None
    cand = sorted(must)
    cl = np.asarray(out.clust)
    if not ctx.require(out.clust is not None and cl.shape == (len(cand), k), f"groups-shape-{what}", f"{what}: groups {cl.shape} of {len(cand)} features"):
        return None
    cl = cl.astype(bool)
    ctx.event("group", k)
    ctx.require((cl.sum(1) == 1).all() and cl.any(0).all(), f"groups-partition-{what}", f"{what}: the groups are not a partition")
    ctx.require(set(kept) <= set(cand), f"unselected-{what}", f"{what}: kept {kept} of {cand}")
    per = [sum(1 for i in kept if i in cand and cl[cand.index(i), g]) for g in range(k)]
    ctx.require(per == [1] * k, f"one-per-group-{what}", f"{what}: kept {per} features of the groups")
    ctx.require(out.silhouette_scores is not None and len(out.silhouette_scores) == len(cand) - 2, f"silhouettes-{what}", f"{out.silhouette_scores}")
    ctx.event("silhouette")
    s = silhouette_score(inp.x[:, cand].T, np.argmax(cl, axis=1), metric="correlation")
    ctx.require(abs(float(out.silhouette_scores[k - 2]) - s) < 1e-7, f"silhouette-{what}", lambda: f"the groups have a silhouette of {s}, reported for {k} groups: {out.silhouette_scores}")
    return cand, cl


def structure(ctx: Ctx) -> None:
    rng = ctx.rng
    n = int(rng.choice([24, 40]))
    k = int(rng.integers(2, 4))
    groups = k
    sizes = [int(rng.integers(2, 4)) for _ in range(groups)]
    if ctx.index % 20 == 7:
        n, sizes = 300, [4, 6, 3][:groups]
        ctx.event("large")
    x, base, member = grouped(rng, n, groups, sizes, 0.25)
    extra = int(rng.integers(0, 3))  # features without any relation: dropped by correlation, so the numbering shifts
    if extra:
        at = np.sort(rng.permutation(x.shape[1] + extra)[:extra])
        full = np.empty((n, x.shape[1] + extra))
        mask = np.zeros(full.shape[1], bool)
        mask[at] = True
        full[:, mask] = rng.normal(size=(n, extra))
        full[:, ~mask] = x
        x = full
    a = int(rng.choice([1, 2, 2, 6]))
    if ctx.index % 20 == 7:
        a = int(rng.integers(11, 14))
    y = np.column_stack([base @ rng.choice([-1.0, 1.0], size=groups) + 0.2 * rng.normal(size=n) for _ in range(a)])
    dense = rng.random() < 0.5
    opts = options(rng, k, 4, 1)
    if not dense:
        inp = sift.make_input(rng, x, y, opts)
        out = sift.run(inp)
        if partition(ctx, inp, out, k, "groups") is None:
            ctx.event("undecided")
            return
        ctx.require(d.exact(out.x, inp.x[:, np.asarray(out.selvars)]), "columns", "columns are not those of the kept features")
        for nm in sift.ROWS:
            ctx.require(d.exact(getattr(out, nm), getattr(inp, nm)), f"rows-{nm}", f"{nm} changed")
        ctx.require(list(out.inst_labels) == list(inp.inst_labels), "labels", "labels changed")
    else:
        md = float(np.sqrt(k) * rng.choice([0.3, 0.6]))
        if rng.random() < 0.3:
            md = 1  # JSON files give whole numbers as integers
        kind = str(rng.choice(["Ftr", "Ftr&AP", "Ftr&Good", "Ftr&AP&Good"]))
        sel = SelvarsOptions.default(density_flag=True, min_distance=md, selvars_type=kind)
        whole = sift.make_input(rng, x, y, opts, sel)
        removed = do_filter(x, y, whole.y_bin, kind, md)[0]
        keep = np.flatnonzero(~removed)
        dd = DataDense(x=x, y=y, x_raw=whole.x_raw, y_raw=whole.y_raw, y_bin=whole.y_bin, y_best=whole.y_best, p=whole.p,
                       num_good_algos=whole.num_good_algos, beta=whole.beta, inst_labels=whole.inst_labels, s=whole.s)
        inp = whole._replace(**{q: getattr(whole, q)[keep] for q in ("x", *sift.ROWS)},
                             inst_labels=whole.inst_labels[~removed], s=None if whole.s is None else whole.s[~removed], data_dense=dd)
        if len(keep) < 15:
            return
        out = sift.run(inp)
        if out.clust is None or partition(ctx, inp, out, k, "dense") is None:
            ctx.event("undecided")
            return
        sv = np.asarray(out.selvars)
        gone = do_filter(x[:, sv], y, whole.y_bin, kind, md)[0]
        rows = np.flatnonzero(~gone)
        ctx.event("dense_refiltered", len(rows))
        ctx.require(d.exact(out.x, x[np.ix_(rows, sv)]), "dense-columns", "features are not those of the retained instances and kept features")
        for nm in sift.ROWS:
            ctx.require(d.exact(getattr(out, nm), getattr(whole, nm)[rows]), f"dense-rows-{nm}", f"{nm} is not that of the retained instances")
        ctx.require(list(out.inst_labels) == [whole.inst_labels[i] for i in rows], "dense-labels", "labels do not follow")
        ctx.require((out.s is None) == (whole.s is None) and (out.s is None or list(out.s) == [whole.s[i] for i in rows]), "dense-sources", "sources do not follow")
    if rng.random() < 0.4:
        again = sift.run(inp)
        ctx.event("repeated")
        ctx.require(d.exact(again.selvars, out.selvars) and d.exact(again.x, out.x), "repeatable", f"{again.selvars} then {out.selvars}")
    ctx.distinct(dense, n, k, tuple(sizes), extra, a, tuple(np.asarray(out.selvars).tolist()))
    ctx.sample({"density": dense, "groups": sizes, "unrelated": extra, "kept": np.asarray(out.selvars)})


def loss(x, y, yb, labs):  # noqa: ANN001, ANN201
    """Worst algorithm's cross-validated 3-nearest-neighbour error in the projection of these features."""
    from sklearn.model_selection import KFold, cross_val_score
    from sklearn.neighbors import KNeighborsClassifier

    z = PilotStage.pilot(x, y, labs, PilotOptions.default(n_tries=1), False).z
    out = []
    for seed in range(4):
        cv = KFold(n_splits=5, shuffle=True, random_state=seed)
        out.append(max(1 - cross_val_score(KNeighborsClassifier(3), z, yb[:, i].astype(int), cv=cv).mean() for i in range(y.shape[1])))
    return float(np.mean(out))


def quality(ctx: Ctx) -> None:
    rng = ctx.rng
    n, k = 70, 2
    x, base, member = grouped(rng, n, k, [2, 2], 0.9)
    extra = int(rng.integers(0, 3))
    x = np.hstack([rng.normal(size=(n, extra)), x])
    sign = rng.choice([-1.0, 1.0], size=k)
    # good/bad depends on the clean members only
    y = np.column_stack([base @ sign * 2, base @ (sign * np.array([1, -1])) * 2])
    if rng.random() < 0.5:  # many algorithms about one of the groups, one (the hardest for a wrong choice) about the other
        g = int(rng.integers(2))
        y = np.column_stack([base[:, g] * float(c) for c in rng.choice([-2.0, 1.0, 3.0], size=7)] + [base[:, 1 - g] * 2])
        if rng.random() < 0.5:
            y = y[:, ::-1].copy()
        ctx.event("many_algorithms")
    inp = sift.make_input(rng, x, y, options(rng, k, 10, 2))
    out = sift.run(inp)
    got = partition(ctx, inp, out, k, "quality")
    if got is None:
        ctx.event("undecided")
        return
    cand, cl = got
    choices = [tuple(sorted(c)) for c in itertools.product(*[[cand[i] for i in np.flatnonzero(cl[:, g])] for g in range(k)])]
    losses = {c: loss(x[:, c], y, inp.y_bin, [inp.feat_labels[i] for i in c]) for c in choices}
    mine = losses[tuple(sorted(int(i) for i in out.selvars))]
    lo, hi = min(losses.values()), max(losses.values())
    ctx.event("combination_scored", len(losses))
    if hi - lo < 0.12:
        return
    ctx.event("combination_decided")
    ctx.require(mine <= lo + 0.5 * (hi - lo), "poor-choice", lambda: f"kept {out.selvars} with error {mine:.3f}; the alternatives have {sorted(losses.values())}")
    ctx.distinct("quality", extra, tuple(np.asarray(out.selvars).tolist()), ctx.index)
    ctx.sample({"errors": {str(c): v for c, v in losses.items()}, "kept": out.selvars})


main(
    "F02",
    [Family("structure", structure, 60, 1500), Family("quality", quality, 30, 400)],
    rule="groups of look-alike features (clean and noisy members, shuffled, with unrelated ones in between) x 2-3 groups x "
    "density subset or not; distinct = (sizes, features kept)",
    assumptions=["small genetic-algorithm budgets", "the chosen combination is judged only where the alternatives differ by at "
                 "least 12 points of error, and required in the better half of that range"],
    required_events=["group", "dense_refiltered", "repeated", "large", "silhouette", "combination_decided", "many_algorithms"],
)
