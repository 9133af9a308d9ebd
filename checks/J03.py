"""J03: two algorithms do not both claim to be best in the same region."""

import numpy as np

from monitor import trace as tr
from monitor.harness import Ctx, Family, main


def overlapping(rng, a: int):
    """Algorithms that are best in overlapping regions, which are not pure."""
    n = int(rng.integers(30, 80))
    far = a > 6 and rng.random() < 0.7  # the first and the last share most of the space
    if far:
        n += 60
    z = rng.normal(size=(n, 2)) * rng.uniform(0.4, 0.7 if far else 1.5)
    cen = rng.normal(size=(a, 2)) * 0.4
    score = np.linalg.norm(z[:, None] - cen[None], axis=2) + rng.choice([0.3, 1.0, 3.0]) * rng.exponential(size=(n, a))
    score[:, 0] *= rng.choice([1.0, 0.8, 0.6])
    if far:
        score[:, 1:-1] *= 2.5
    y = score <= score.min(axis=1, keepdims=True) * 1.2
    return {"z": z, "y_bin": y, "p": np.argmin(score, axis=1), "beta": y.sum(axis=1) > 0.55 * a, "purity": float(rng.choice([0.05, 0.2, 0.35, 0.5]))}


def case(ctx: Ctx) -> None:
    rng = ctx.rng
    a = 2 if ctx.family == "pair" else int(rng.integers(10, 13)) if ctx.index % 8 == 7 else int(rng.integers(3, 6))
    ctx.event("many_algorithms", int(a > 9))
    q = overlapping(rng, a)
    out = tr.run(q, sim=bool(rng.random() < 0.5), cores=int(rng.integers(1, 5)))
    want = tr.footprints(q, ctx.event)
    for j in range(a):
        off = tr.differ(out.best[j].polygon, want["best"][j])
        ctx.event("best_footprint")
        ctx.require(off < 1e-6, "region", lambda: f"best {j}: {100 * off:.3g}% of the region differs (area {out.best[j].area}, expected {0 if want['best'][j] is None else want['best'][j].area})")
    if a == 2 and out.best[0].polygon is not None and out.best[1].polygon is not None:
        common = out.best[0].polygon.intersection(out.best[1].polygon)
        if common.area > 1e-9:
            m = tr.inside(common, q["z"])
            c = [(m & (q["p"] == j)).sum() for j in range(2)]
            ctx.event("undecided_overlap")
            ctx.require(c[0] == c[1], "contradiction", f"both are said to be best in a region of area {common.area:.3g} with {c} of their instances")
        else:
            ctx.event("disjoint")
    ctx.distinct(len(q["z"]), a, q["purity"], ctx.index)
    ctx.sample({"instances": len(q["z"]), "areas": [f.area for f in out.best], "before": [0 if w is None else w.area for w in want["first"]]})


main(
    "J03",
    [Family("pair", case, 140, 3000, 240.0), Family("several", case, 60, 1500, 240.0)],
    rule="instances where several algorithms are best in overlapping, impure regions x purity; the resolution is carried out a second time, "
    "independently; for two algorithms the remaining overlap is judged directly; distinct = sizes, purity and data",
    assumptions=["as J02"],
    required_events=["contradiction", "tie", "emptied", "best_footprint", "disjoint", "undecided_overlap", "many_algorithms"],
)
