"""J02: footprints cover the regions the instances support."""

import numpy as np

from monitor import trace as tr
from monitor.harness import Ctx, Family, main


def case(ctx: Ctx) -> None:
    rng = ctx.rng
    if ctx.family == "large":  # the neighbourhoods that make a cluster grow with the number of instances, up to a limit
        pure = rng.random() < 0.8  # (impure triangles of so many instances take minutes to find)
        n = int(rng.choice([250, 450, 700, 1100] if pure else [250, 430]) + rng.integers(80))
        q = tr.problem(rng, a=1, n=n)
        if pure:
            q["y_bin"][:], q["p"][:] = True, -1
            q["beta"][:] = ctx.index % 2
        else:
            q["z"] *= 1.5 / np.abs(q["z"]).max()
        if rng.random() < 0.6:  # dense groups and scattered instances
            far = rng.random(n) < 0.06
            q["z"][far] *= 4
        ctx.event("many_instances" if n > 450 else "some_instances")
    else:
        q = tr.problem(rng, big=ctx.tier == "thorough")
    if ctx.family == "single":  # without another algorithm nothing contradicts
        q["y_bin"], q["p"] = q["y_bin"][:, :1], np.minimum(q["p"], 0)
    out = tr.run(q, sim=bool(rng.random() < 0.5), cores=int(rng.integers(1, 5)))
    want = tr.footprints(q)
    pairs = [("space", out.space, want["space"]), ("hard", out.hard, want["hard"])]
    pairs += [(f"good {j}", f, w) for j, (f, w) in enumerate(zip(out.good, want["good"]))]
    if ctx.family == "single":
        pairs.append(("best", out.best[0], want["best"][0]))
    for what, f, w in pairs:
        off = tr.differ(f.polygon, w)
        n = 0 if w is None or w.is_empty else (len(w.geoms) if hasattr(w, "geoms") else 1)
        ctx.event("region" if n == 1 else "split_region" if n else "no_region")
        ctx.require(off < 1e-6, "region", lambda: f"{what}: {100 * off:.3g}% of the region differs (area {f.area}, expected {0 if w is None else w.area})")
    ctx.distinct(len(q["z"]), q["y_bin"].shape[1], q["purity"], ctx.index)
    ctx.sample({"instances": len(q["z"]), "space": out.space.area, "good": [f.area for f in out.good], "hard": out.hard.area})


main(
    "J02",
    [Family("regions", case, 90, 2000, 240.0), Family("single", case, 30, 500, 240.0), Family("large", case, 16, 200, 400.0)],
    rule="random planar instances (as J01; up to 1200 in family large) whose footprints are constructed a second time, independently; distinct = sizes, purity and data",
    assumptions=["the alpha shape (2.15), simplification (0.05) and smoothing (0.01) of the method, and shapely's and alphashape's implementations of them"],
    required_events=["region", "split_region", "no_region"],
)
