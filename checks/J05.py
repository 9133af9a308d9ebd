"""J05: the footprints of a finished space are about its own instances, selections and algorithms."""

import numpy as np

from monitor import pipeline as pl
from monitor import trace as tr
from monitor.harness import Ctx, Family, main


def case(ctx: Ctx) -> None:
    rng = ctx.rng
    sim = ctx.family == "predicted"
    wide = ctx.index % 10 == 7
    ctx.event("many_algorithms", int(wide))
    p = pl.problem(rng, wide=wide, n=int(rng.integers(50, 85)), trace={"use_sim": sim}, sifted={"flag": False}, norm={"flag": True}, pilot={"analytic": bool(rng.random() < 0.7)})
    m = pl.space(p).build()
    d, a = m.data, len(m.data.algo_labels)
    y, chosen = (m.pythia.y_hat, m.pythia.selection0) if sim else (d.y_bin, d.p)
    q = {"z": m.pilot.z, "y_bin": np.asarray(y, bool), "p": np.asarray(chosen, int) - 1, "beta": np.asarray(d.beta, bool), "purity": p["groups"]["trace"]["purity"]}
    want = tr.footprints(q)
    off = {f"good {d.algo_labels[j]}": tr.differ(m.trace.good[j].polygon, want["good"][j]) for j in range(a)}
    off |= {"space": tr.differ(m.trace.space.polygon, want["space"]), "hard": tr.differ(m.trace.hard.polygon, want["hard"])}
    for what, v in off.items():
        ctx.event("footprint")
        ctx.require(v < 1e-6, "region", lambda: f"{what}: {100 * v:.3g}% of the region is not that of the space's instances")
    best = [tr.differ(m.trace.best[j].polygon, want["best"][j]) for j in range(a)]
    ctx.event("best_footprint", a)
    ctx.event("best_region", sum(g is not None and g.area > 0 for g in want["best"]))
    if max(best) >= 1e-6:
        # the selections are numbered from 1 (0 being none), and read as if they were numbered from 0
        shifted = tr.footprints({**q, "p": q["p"] + 1})["best"]
        if not sim and all(tr.differ(m.trace.best[j].polygon, shifted[j]) < 1e-6 for j in range(a)):
            ctx.violation("best-of-previous", "the best footprint of each algorithm is about the instances where the algorithm before it is best")
        else:
            ctx.violation("best", f"best footprints differ from those of the {'predicted' if sim else 'measured'} best algorithms by {[f'{100 * b:.3g}%' for b in best]}")
    names = [str(v) for v in m.trace.summary.iloc[:, 0]]
    ctx.require(names == list(d.algo_labels), "summary", f"summarised for {names}")
    for j in range(a):
        row = m.trace.summary.iloc[j]
        for col, f in (("Area_Good", m.trace.good[j]), ("Area_Best", m.trace.best[j])):
            ctx.event("summary")
            ctx.require(abs(float(row[col]) - f.area) <= 1e-3 * max(1, f.area), "summary", lambda: f"{col} of {names[j]} is {row[col]}, the footprint has {f.area}")
    # the boundary and the footprints are in the same coordinates
    ctx.distinct(sim, a, ctx.index)
    ctx.sample({"sim": sim, "areas": [f.area for f in m.trace.best], "space": m.trace.space.area})


main(
    "J05",
    [Family("predicted", case, 28, 600, 200.0), Family("measured", case, 28, 600, 200.0)],
    rule="random small spaces built completely; every footprint constructed a second time from the model's own coordinates and selections; distinct = data",
    assumptions=["as J02 for the construction of footprints"],
    required_events=["footprint", "best_footprint", "best_region", "summary"],
)
