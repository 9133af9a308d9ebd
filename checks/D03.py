"""D03: the subset of instances is the one asked for, and every per-instance quantity follows it."""

import os
from pathlib import Path

import numpy as np

from monitor import data as d
from monitor.harness import Ctx, Family, main

from instancespace.instance_space import InstanceSpace
from instancespace.stages.prelim import PrelimStage
from instancespace.stages.preprocessing import PreprocessingStage
from instancespace.utils.filter import do_filter

SCR = Path(os.environ["ISA_SCRATCH"])
ROWS = ("x", "y", "x_raw", "y_raw", "y_bin", "y_best", "p", "num_good_algos", "beta")
FULL = ("med_val", "iq_range", "hi_bound", "lo_bound", "min_x", "lambda_x", "mu_x", "sigma_x", "min_y", "lambda_y", "sigma_y", "mu_y")


def run(meta, selvars, base):  # noqa: ANN001, ANN201
    opts = d.options(selvars=selvars, **base)
    space = InstanceSpace(meta, opts, stages=[PreprocessingStage, PrelimStage])
    return space.run_until_stage(PrelimStage)


def key(out, i):  # noqa: ANN001, ANN201
    """What identifies an instance: its label and its raw data."""
    return out["inst_labels"].iloc[i], (np.asarray(out["x_raw"][i]) + 0.0).tobytes(), (np.asarray(out["y_raw"][i]) + 0.0).tobytes()


def case(ctx: Ctx) -> None:
    rng = ctx.rng
    n, k, a = int(rng.choice([8, 15, 30, 50])), int(rng.integers(1, 5)), int(rng.integers(2, 5))
    if ctx.index % 25 == 7:
        n, k, a = int(rng.integers(100, 800)), int(rng.integers(3, 12)), int(rng.integers(5, 14))
        ctx.event("large")
    x, y = d.features(rng, n, k), None
    y = d.performance(rng, x, a)
    if rng.random() < 0.3:  # some rows are removed before the subset is taken
        x[rng.permutation(n)[: n // 6]] = np.nan
    labs = d.labels(rng, n)
    if rng.random() < 0.2:  # several rows of the table may carry one label
        for i in rng.permutation(n)[: max(1, n // 4)]:
            labs[i] = labs[int(rng.integers(n))]
        ctx.event("repeated_labels")
    src = [f"s{int(v)}" for v in rng.integers(4, size=n)] if rng.random() < 0.6 else None
    index = None if rng.random() < 0.5 else list(rng.permutation(n) + 3)
    meta = d.metadata(x, y, labs, src, index=index)
    base = {"perf": {"max_perf": bool(rng.random() < 0.5), "epsilon": float(np.median(y)), "abs_perf": True},
            "norm": {"flag": bool(rng.random() < 0.7)}}
    full = run(meta, {}, base)
    m = full["x"].shape[0]
    alive = list(full["inst_labels"])
    ctx.require(full["data_dense"] is None, "dense-unasked", "dense data without a density subset")
    want = [l for l, r in zip(labs, x, strict=True) if not np.isnan(r).all()]
    ctx.require(alive == want, "complete", f"without a subset {len(alive)} of {len(want)} instances are used")
    mode = str(rng.choice(["fraction", "file", "density", "nofile", "off"]))
    sel: dict = {}
    expected: list[int] | None = None
    if mode == "fraction":
        frac = float(rng.choice([0.1, 0.25, 0.5, 0.75, 0.9]))
        if np.ceil(frac * m) >= m:
            frac = 0.5
        sel = {"small_scale_flag": True, "small_scale": frac}
    elif mode == "file":
        style = str(rng.choice(["some", "one", "last", "all", "outside", "repeat", "row"]))
        idx = list(rng.permutation(m)[: int(rng.integers(1, m))] + 1)
        if style == "one":
            idx = idx[:1]
        elif style == "last":
            idx = [m] + [i for i in idx if i != m][:2]
        elif style == "all":
            idx = list(range(1, m + 1))
        elif style == "outside":
            idx += [0, m + 1, m + 50]
        elif style == "repeat":
            idx += idx[:2]
        f = SCR / f"idx{os.getpid()}.csv"
        f.write_text((",".join if style == "row" else "\n".join)(str(int(i)) for i in idx) + "\n")
        sel = {"file_idx_flag": True, "file_idx": str(f)}
        expected = sorted({int(i) - 1 for i in idx if 1 <= i <= m})
        ctx.event(f"file_{style}")
    elif mode == "density":
        kind = str(rng.choice(["Ftr", "Ftr&AP", "Ftr&Good", "Ftr&AP&Good"]))
        sd = np.median(np.abs(full["x"] - np.median(full["x"], 0))) * np.sqrt(k)
        md = float(sd * rng.choice([0.3, 0.8, 1.5]))
        if rng.random() < 0.15:
            md = int(np.ceil(md))  # JSON files give whole numbers as integers
        sel = {"density_flag": True, "min_distance": md, "selvars_type": kind}
        gone = do_filter(full["x"].copy(), full["y"].copy(), full["y_bin"].copy(), kind, md)[0]
        expected = [int(i) for i in np.flatnonzero(~gone)]
    elif mode == "nofile":
        sel = {"file_idx_flag": True, "file_idx": str(SCR / "no-such-file.csv")}
        expected = list(range(m))
    else:
        sel = {"small_scale": 0.4, "small_scale_flag": False, "file_idx": str(SCR / "no.csv"), "density_flag": False, "min_distance": 0.5}
        expected = list(range(m))
    out = run(meta, sel, base)
    got = list(out["inst_labels"])
    pos = {key(full, i): i for i in range(m)}
    if len(pos) < m:
        ctx.event("indistinct_rows")
        return
    if not ctx.require(len(got) == len(out["x_raw"]) and all(key(out, i) in pos for i in range(len(got))), f"labels-{mode}",
                       lambda: f"{mode}: labels {got[:6]} (of {len(got)}) are not those of the rows"):
        return
    at = [pos[key(out, i)] for i in range(len(got))]
    if not ctx.require(len(set(at)) == len(at), f"repeated-{mode}", f"{mode}: an instance was selected twice"):
        return
    if mode == "fraction":
        ctx.require(abs(len(at) - frac * m) < 1, "fraction-size", f"{len(at)} of {m} kept for a fraction of {frac}")
        again = run(meta, sel, base)
        ctx.require(list(again["inst_labels"]) == got, "fraction-repeatable", "two runs selected different instances")
    else:
        ctx.require(at == expected, f"selection-{mode}", lambda: f"{mode} {sel}: instances {at} expected {expected}")
    ctx.require(at == sorted(at), "order", "the order of instances changed")
    ctx.event(f"subset_{mode}")
    ctx.event("instance_selected", len(at))
    for nm in ROWS:
        ctx.event("row_quantity")
        ctx.require(d.exact(out[nm], full[nm][at]), f"rows-{nm}", lambda: f"{mode}: {nm} is not that of the selected instances")
    for nm in FULL:
        ctx.require(d.exact(out[nm], full[nm]), f"parameter-{nm}", f"{mode}: {nm} changed with the subset")
    if src is None:
        ctx.require(out["s"] is None, "sources", "sources appeared")
    else:
        so = [s for s, r in zip(src, x, strict=True) if not np.isnan(r).all()]
        ctx.require(list(out["s"]) == [so[i] for i in at], "sources", "sources do not follow the subset")
    # the table itself
    rows = np.flatnonzero(~np.isnan(x).all(1))[at]
    ctx.require(d.exact(out["x_raw"], x[rows]) and d.exact(out["y_raw"], y[rows]), "label-row", "labels and rows disagree")
    if mode == "density":
        dd = out["data_dense"]
        if ctx.require(dd is not None, "dense-missing", "no dense data with a density subset"):
            for nm in ROWS:
                ctx.event("dense_quantity")
                ctx.require(d.exact(getattr(dd, nm), full[nm]), f"dense-{nm}", f"dense {nm} is not that of all instances")
            ctx.require(list(dd.inst_labels) == alive, "dense-labels", "dense labels are not those of all instances")
            ctx.require((dd.s is None) == (src is None) and (src is None or list(dd.s) == list(full["s"])), "dense-sources", "dense sources differ")
    else:
        ctx.require(out["data_dense"] is None, "dense-unasked", "dense data without a density subset")
    ctx.distinct(mode, n, k, a, len(at), tuple(at[:8]))
    ctx.sample({"mode": mode, "options": sel, "instances": m, "selected": at})


main(
    "D03",
    [Family("subset", case, 1000, 20000)],
    rule="random problems x subset mode (fraction, index file in several layouts incl. single/last/out-of-range/repeated "
    "indices, four density types, none, missing file); distinct = (mode, sizes, instances selected)",
    assumptions=["one subset mode is on at a time"],
    required_events=["subset_fraction", "subset_file", "subset_density", "subset_off", "subset_nofile", "row_quantity",
                     "dense_quantity", "file_one", "file_last", "file_outside", "file_repeat", "large", "repeated_labels"],
)
