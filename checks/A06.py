"""A06: each step gives the same by itself, again and again, as in a space, and leaves what it is given alone."""

import copy
import random

import numpy as np
import pandas as pd

from monitor import pipeline as pl
from monitor.harness import Ctx, Family, main

PREL = ("x", "y", "y_bin", "y_best", "p", "num_good_algos", "beta", "med_val", "iq_range", "hi_bound", "lo_bound", "min_x", "lambda_x", "mu_x",
        "sigma_x", "min_y", "lambda_y", "sigma_y", "mu_y")


def public(st, i, o):  # noqa: ANN001, ANN201
    """The same step through the method meant for use outside of a space: (what it gave, what the space has), or None."""
    if st is pl.PreprocessingStage:
        x, y, f, a = st.select_features_and_algorithms(i.features, i.algorithms, i.feature_names, i.algorithm_names, i.selvars_options)
        x, y, l, f, s = st.remove_instances_with_many_missing_values(x, y, i.instance_sources, f, i.instance_labels)
        return [l, f, a, x, y, s], [o.inst_labels, o.feat_labels, o.algo_labels, o.x, o.y, o.s]
    if st is pl.PrelimStage:
        sv = i.selvars_options
        if sv.small_scale_flag or sv.file_idx_flag or sv.density_flag:
            return None
        got = st.prelim(i.x, i.y, i.x_raw, i.y_raw, i.s, i.inst_labels, i.prelim_options, sv)
        return list(got), [getattr(o, f) for f in PREL]
    if st is pl.SiftedStage:
        got = st.sifted(i.x, i.y, i.y_bin, i.x_raw, i.y_raw, i.beta, i.num_good_algos, i.y_best, i.p, i.inst_labels, i.s, i.feat_labels,
                        i.sifted_options, i.selvars_options, i.data_dense, i.parallel_options)
        return got, o
    if st is pl.PilotStage:
        return st.pilot(i.x, i.y, i.feat_labels, i.pilot_options), o
    if st is pl.PythiaStage:
        return st.pythia(i.z, i.y_raw, i.y_bin, i.y_best, i.algo_labels, i.pythia_options, i.parallel_options), o
    if st is pl.CloisterStage:
        return st.cloister(i.x, i.a, i.cloister_options), o
    y, p = (i.y_hat, i.selection0) if i.trace_options.use_sim else (i.y_bin, i.p)
    return st.trace(i.z, y, p, i.beta, i.algo_labels, i.trace_options, i.parallel_options), o


def touched(a, b, path=""):  # noqa: ANN001, ANN201
    """Where a value was changed in place."""
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            return path if list(map(repr, a.ravel())) != list(map(repr, b.ravel())) else None
        return None if a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes() else path
    if isinstance(a, (pd.Series, pd.DataFrame)):
        return None if a.equals(b) and list(a.index) == list(b.index) else path
    if hasattr(a, "_asdict"):
        return touched(a._asdict(), b._asdict(), path)
    if hasattr(a, "__dataclass_fields__"):
        return touched({f: getattr(a, f) for f in a.__dataclass_fields__}, {f: getattr(b, f) for f in b.__dataclass_fields__}, path)
    if isinstance(a, dict):
        return next((t for k in a if (t := touched(a[k], b[k], f"{path}.{k}"))), None)
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return path
        return next((t for k, (u, v) in enumerate(zip(a, b)) if (t := touched(u, v, f"{path}[{k}]"))), None)
    return None if a == b or a is b or repr(a) == repr(b) else path


def case(ctx: Ctx) -> None:
    rng = ctx.rng
    sel: dict = {}
    mode = str(rng.choice(["all", "all", "dropped", "density", "fraction"]))
    if mode == "density":
        sel = {"density_flag": True, "min_distance": float(rng.choice([0.1, 0.3])), "selvars_type": str(rng.choice(["Ftr", "Ftr&Good"]))}
    elif mode == "fraction":
        sel = {"small_scale_flag": True, "small_scale": 0.8}
    p = pl.problem(rng, n=int(rng.integers(45, 80)), wide=ctx.index % 12 == 5, selvars=sel)
    if mode == "dropped":  # a feature with many missing values, and instances without any performance
        extra = p["x"][:, :1] + rng.normal(size=(len(p["x"]), 1))
        extra[rng.random(len(extra)) < 0.5] = np.nan
        at = int(rng.integers(p["x"].shape[1] + 1))
        p["x"] = np.column_stack([p["x"][:, :at], extra, p["x"][:, at:]])
        p["features"] = [*p["features"][:at], "feature_mostly_missing", *p["features"][at:]]
        p["y"][rng.integers(len(p["y"]), size=2)] = np.nan
    calls: list[tuple] = []
    own = {st: st.__dict__["_run"] for st in pl.STAGES}

    def watch(st):  # noqa: ANN001, ANN202
        real = st._run

        def run(inputs):  # noqa: ANN001, ANN202
            keep = copy.deepcopy(inputs)
            out = real(inputs)
            calls.append((st, keep, copy.deepcopy(out)))
            ctx.event("step")
            return out

        return staticmethod(run)

    try:
        for st in pl.STAGES:
            st._run = watch(st)
        gen = pl.space(p).run_iter()
        for ev in gen:
            if ev.stage is pl.SiftedStage:
                good = ev.output.y_bin.sum(axis=0)
                if min(good.min(), len(ev.output.y_bin) - good.max()) < 4:
                    ctx.event("one_sided")
                    return
    finally:
        for st, f in own.items():
            st._run = f
    for t in rng.permutation(np.repeat(np.arange(len(calls)), 2)):
        st, keep, want = calls[t]
        given = copy.deepcopy(keep)
        np.random.seed(int(rng.integers(1 << 31)))  # noqa: NPY002
        random.seed(int(rng.integers(1 << 31)))
        pair = public(st, given, want) if rng.random() < 0.7 else (st._run(given), want)
        if pair is None:
            continue
        name = st.__name__
        got, exp = ([getattr(v, "_asdict", lambda v=v: v)() for v in pair])
        for d in (got, exp):
            if isinstance(d, dict):
                d.pop("svm", None), d.pop("cp", None)
        ctx.event(f"again_{name}")
        bad = pl.unlike(got, exp)
        ctx.require(not bad, f"differs-{name}", lambda: f"{name} by itself gives other values than in the space: {bad[:4]}")
        where = touched(given, keep)
        ctx.require(where is None, f"changed-{name}", lambda: f"{name} changed what it was given: {where}")
    ctx.event(mode)
    ctx.distinct(mode, p["x"].shape, p["y"].shape, ctx.index)
    ctx.sample({"mode": mode, "table": p["x"].shape, "steps": [c[0].__name__ for c in calls]})


main(
    "A06",
    [Family("steps", case, 40, 800, 240.0)],
    rule="random small spaces whose steps are recorded, then carried out again twice each by themselves, in random order, through their public methods or as a stage, "
    "with other states of the process's random generators; distinct = data and options",
    assumptions=["as A04: up to rounding"],
    required_events=["step", "all", "dropped", "density", "fraction", *[f"again_{s}" for s in ("PreprocessingStage", "PrelimStage", "SiftedStage", "PilotStage", "PythiaStage", "CloisterStage", "TraceStage")]],
)
