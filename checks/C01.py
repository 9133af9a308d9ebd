"""C01: the selected features/algorithms and only unusable data are removed; nothing else moves."""

import numpy as np

from monitor import data as d
from monitor.harness import Ctx, Family, main

from instancespace.instance_space import InstanceSpace
from instancespace.stages.preprocessing import PreprocessingStage


def lookalike(prefix: str, j: int) -> str:
    """Names that differ in letter case, or of which one is part of the other."""
    base = prefix + "ab"[j % 2] * (1 + j // 4)
    return base.upper() if j // 2 % 2 else base


def unknown(rng: np.random.Generator, names: list[str]) -> str:
    """A name that none of these is, however similar."""
    name = names[int(rng.integers(len(names)))]
    made = [name.partition("_")[2], name + "_", name + " ", name.swapcase(), name[:-1], prefix_of(name) + "nosuch"]
    name = made[int(rng.integers(len(made)))]
    return name if name not in names else "nosuch"


def prefix_of(name: str) -> str:
    return name.partition("_")[0] + "_"


def case(ctx: Ctx) -> None:
    rng = ctx.rng
    n = int(rng.choice([3, 5, 10, 20, 40]))
    k, a = int(rng.integers(1, 9)), int(rng.integers(1, 7))
    if ctx.index % 25 == 7:  # as large as real collections
        n, k, a = int(rng.integers(100, 2500)), int(rng.integers(9, 45)), int(rng.integers(7, 25))
        ctx.event("large")
    x, y = rng.normal(size=(n, k)), rng.normal(size=(n, a))
    # values identify their cell, so that a moved row or column cannot go unnoticed
    x = np.round(x, 6) + np.arange(n)[:, None] * 100 + np.arange(k) * 10000
    y = np.round(y, 6) + np.arange(n)[:, None] * 100 + np.arange(a) * 10000 + 5e6
    pat = str(rng.choice(["none", "sparse", "cols", "rows", "edge", "all"]))
    if pat in ("sparse", "all"):
        x, y = d.with_missing(rng, x, 0.08), d.with_missing(rng, y, 0.08)
    if pat in ("cols", "all"):
        for j in rng.permutation(k)[: max(0, k - 1)]:
            x[rng.random(n) < rng.choice([0.1, 0.2, 0.25, 0.6]), j] = np.nan
    if pat == "edge":  # exactly at, just above and just below the 20% limit
        for j in range(k - 1):
            m = int(np.ceil(n * 0.2)) + int(rng.integers(-1, 2))
            x[rng.permutation(n)[: max(0, m)], j] = np.nan
    if pat in ("rows", "all"):
        for i in rng.permutation(n)[: int(rng.integers(1, max(2, n // 3)))]:
            if rng.random() < 0.5:
                x[i] = np.nan
            else:
                y[i] = np.nan
    fn, an = [f"feature_f{j}" for j in range(k)], [f"algo_a{j}" for j in range(a)]
    if rng.random() < 0.15:  # names that are easily taken for one another
        fn, an = [lookalike("feature_", j) for j in range(k)], [lookalike("algo_", j) for j in range(a)]
        ctx.event("lookalike_names")
    fn = [fn[i] for i in rng.permutation(k)]
    an = [an[i] for i in rng.permutation(a)]
    labs = d.labels(rng, n)
    if rng.random() < 0.15:  # nothing forbids two instances of the same name
        labs = [labs[i // 2] for i in range(n)]
    src = [f"s{int(v)}" for v in rng.integers(4, size=n)] if rng.random() < 0.6 else None
    index = None if rng.random() < 0.5 else list(rng.permutation(n) + 3)
    sel: dict = {}
    fsel = asel = None
    if rng.random() < 0.6:
        fsel = [fn[i] for i in rng.permutation(k)[: int(rng.integers(0, k + 1))]]
        if rng.random() < 0.3:
            fsel.append(unknown(rng, fn))
        if rng.random() < 0.2 and fsel:
            fsel.append(fsel[0])
        sel["feats"] = fsel
    if rng.random() < 0.6:
        asel = [an[i] for i in rng.permutation(a)[: int(rng.integers(0, a + 1))]]
        if rng.random() < 0.3:
            asel.append(unknown(rng, an))
        sel["algos"] = asel
    kf = [j for j in range(k) if fn[j] in (fsel or [])] or list(range(k))
    ka = [j for j in range(a) if an[j] in (asel or [])] or list(range(a))
    xs, ys = x[:, kf], y[:, ka]
    rows = [i for i in range(n) if not np.isnan(xs[i]).all() and not np.isnan(ys[i]).all()]
    if not rows:
        return
    cols, unsure = [], False
    for j in kf:
        miss = sum(np.isnan(x[i, j]) for i in rows)
        # 20% or more of the remaining instances missing
        if 5 * miss < len(rows):
            cols.append(j)
    meta = d.metadata(x, y, labs, src, fn, an, index)
    space = InstanceSpace(meta, d.options(selvars=sel), stages=[PreprocessingStage])
    out = space.run_until_stage(PreprocessingStage)
    ctx.require(out["feat_labels"] == [fn[j] for j in cols], "features-kept",
                lambda: f"kept {out['feat_labels']}, expected {[fn[j] for j in cols]} ({pat})")
    ctx.require(out["algo_labels"] == [an[j] for j in ka], "algorithms-kept",
                lambda: f"kept {out['algo_labels']}, expected {[an[j] for j in ka]}")
    ctx.require(list(out["inst_labels"]) == [labs[i] for i in rows], "instances-kept",
                lambda: f"kept {list(out['inst_labels'])}, expected {[labs[i] for i in rows]}")
    if src is None:
        ctx.require(out["s"] is None, "sources", "sources appeared")
    else:
        ctx.require(out["s"] is not None and list(out["s"]) == [src[i] for i in rows], "sources",
                    lambda: f"{list(out['s'])} expected {[src[i] for i in rows]}")
    for name, want in (("x", x[np.ix_(rows, cols)]), ("x_raw", x[np.ix_(rows, cols)]),
                       ("y", y[np.ix_(rows, ka)]), ("y_raw", y[np.ix_(rows, ka)])):
        ctx.event("cell_compared", want.size)
        ctx.require(d.exact(out[name], want), f"cells-{name}", lambda: f"{name} differs ({pat}): {out[name]} vs {want}")
    ctx.event("row_removed", n - len(rows))
    ctx.event("column_removed", len(kf) - len(cols))
    ctx.event("selection", int(fsel is not None) + int(asel is not None))
    ctx.require(list(meta.instance_labels) == labs and d.exact(meta.features, x) and d.exact(meta.algorithms, y)
                and meta.feature_names == fn and meta.algorithm_names == an, "input-changed", "metadata changed")
    ctx.distinct(pat, n, k, a, len(rows), len(cols), len(ka), fsel is None, asel is None, src is None)
    ctx.sample({"pattern": pat, "n": n, "selected_features": fsel, "selected_algorithms": asel,
                "rows_kept": len(rows), "features_kept": len(cols)})


main(
    "C01",
    [Family("clean", case, 2500, 60000)],
    rule="random tables whose cell values identify their cell, six missing-value patterns (sparse, by column, by row, "
    "exactly at the 20% limit, combined), random name selections (unknown, repeated, empty, reordered); distinct = "
    "(pattern, sizes, rows/features/algorithms kept, which selections were given)",
    assumptions=["at least one instance remains after removal"],
    required_events=["cell_compared", "row_removed", "column_removed", "selection", "large", "lookalike_names"],
)
