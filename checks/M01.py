"""M01: tables with missing cells can be built into a space."""

import traceback

import numpy as np

from monitor import pipeline as pl
from monitor.harness import Ctx, Family, in_repo_traceback, main


def case(ctx: Ctx) -> None:
    rng = ctx.rng
    where = ctx.family
    p = pl.problem(rng, n=int(rng.integers(50, 80)), missing=0.03 if where != "features" else 0.0, missing_x=0.03 if where != "performances" else 0.0,
                   sifted={"flag": bool(ctx.index % 2)}, pilot={"analytic": bool(ctx.index % 4 >= 2)})
    done: list[str] = []
    out: dict = {}
    try:
        for ev in pl.space(p).run_iter():
            done.append(ev.stage.__name__)
            out.update(ev.output._asdict())
    except Exception as e:  # noqa: BLE001
        at = in_repo_traceback(e.__traceback__)
        if at is None:
            raise
        stage, text = at.split("/")[-1].split(".py:")[0], str(e)
        kind = "analytic" if "infs or NaNs" in text and stage == "pilot" else "clustering" if stage == "sifted" and "NaN" in text else "classifier" if stage == "pythia" and ("fit failed" in text or "fits failed" in text or "NaN" in text) else "other"
        ctx.event("stopped")
        ctx.violation(f"stops-{stage}-{kind}", f"missing {where}: {type(e).__name__}: {text[:200]} at {at}", traceback="".join(traceback.format_exception(e))[-1500:])
        ctx.distinct("stopped", ctx.index)
        return
    ctx.event("built")
    for name in ("z", "a", "pr0_hat", "pr0_sub"):
        ctx.require(np.isfinite(np.asarray(out[name], float)).all(), "result", f"{name} is not finite")
    n = len(p["x"])
    ctx.require(len(out["z"]) == len(out["y_hat"]) == len(out["inst_labels"]) == n, "instances", f"{len(out['z'])} of {n} instances are in the space")
    ctx.require(out["z_edge"] is not None and np.isfinite(out["z_edge"]).all(), "result", "no boundary")
    ctx.distinct("built", ctx.index)
    ctx.sample({"where": where, "cells": int(np.isnan(p["x"]).sum() + np.isnan(p["y"]).sum()), "stages": done})


main(
    "M01",
    [Family("performances", case, 32, 400, 200.0), Family("features", case, 24, 300, 200.0)],
    rule="random small tables with 3% of the performances or features missing, built completely in all four combinations of feature selection and projection; distinct = data",
    assumptions=["fewer than 20% of a feature's values are missing, and every instance has some feature and some performance"],
    required_events=["built"],
)
