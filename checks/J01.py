"""J01: every footprint's numbers are those of its region, and the summary table repeats them."""

import numpy as np
from shapely import affinity
from shapely.geometry import MultiPoint

from instancespace.data.model import Footprint
from monitor import trace as tr
from monitor.harness import Ctx, Family, main
from monitor.model import region

COLS = ["Algorithm", *[f"{m}_{w}{s}" for w in ("Good", "Best") for m, s in (("Area", ""), ("Area", "_Normalised"), ("Density", ""), ("Density", "_Normalised"), ("Purity", ""))]]


def case(ctx: Ctx) -> None:
    rng = ctx.rng
    many = ctx.index % 25 == 5
    ctx.event("many_algorithms", int(many))
    q = tr.problem(rng, big=ctx.tier == "thorough", a=int(rng.integers(10, 14)) if many else None)
    if ctx.index % 7 == 0:  # too few instances for some footprints
        q["p"] = np.where(np.arange(len(q["p"])) < len(q["p"]) - 2, 0, q["y_bin"].shape[1] - 1)
        q["beta"][:] = True
    if ctx.index % 7 == 3:  # good only on repetitions of one or two instances
        m = int(rng.integers(1, 3))
        q["z"][:7] = q["z"][rng.integers(m, size=7)]
        q["y_bin"][:, -1] = np.arange(len(q["p"])) < 7
        ctx.event("repeated_only")
    z = q["z"]
    names = [f"algo {j}" for j in rng.permutation(q["y_bin"].shape[1])]
    keep = {k: np.copy(v) for k, v in q.items()}
    out = tr.run(q, sim=bool(rng.random() < 0.5), cores=int(rng.integers(1, 5)), labels=names)
    ctx.require(all(np.array_equal(keep[k], q[k]) for k in q), "input-changed", "the inputs were changed")
    if not ctx.require(len(out.good) == len(out.best) == len(names), "count", f"{len(out.good)} and {len(out.best)} footprints for {len(names)} algorithms"):
        return
    for what, f, good in tr.parts(out, q):
        empty = f.polygon is None or f.polygon.is_empty
        if len(np.unique(z[good], axis=0)) < 3:
            ctx.event("too_few")
            ctx.require(empty, "too-few", f"{what}: a region around fewer than three instances")
        if empty:
            ctx.event("empty_footprint")
            ctx.require(f.area == f.elements == f.good_elements == f.density == f.purity == 0, "empty", f"{what}: {f}")
            continue
        ctx.event("footprint")
        m = tr.inside(f.polygon, z)
        el, ge = int(m.sum()), int((m & good).sum())
        ctx.event("instance_inside", el)
        ctx.event("bad_instance_inside", el - ge)
        ctx.require(np.isclose(f.area, f.polygon.area), "area", f"{what}: area {f.area}, the region's is {f.polygon.area}")
        ctx.require(f.elements == el, "elements", f"{what}: {f.elements} instances reported, {el} inside")
        ctx.require(f.good_elements == ge, "good-elements", f"{what}: {f.good_elements} good instances reported, {ge} inside")
        ctx.require(np.isclose(f.density, el / f.polygon.area if f.polygon.area else 0), "density", f"{what}: {f.density} for {el} in {f.polygon.area}")
        ctx.require(np.isclose(f.purity, ge / el if el else 0), "purity", f"{what}: {f.purity} for {ge} of {el}")
        hull = MultiPoint(z[good]).convex_hull.buffer(1e-3 + 1e-6 * np.abs(z).max())
        ctx.require(f.polygon.difference(hull).area <= 1e-9, "elsewhere", f"{what}: the region leaves the hull of its instances")
    f = Footprint.from_polygon(None, z, q["y_bin"][:, 0])
    ctx.require(f.polygon is None and f.area == f.elements == f.good_elements == f.density == f.purity == 0, "empty", f"no region: {f}")
    s = out.trace_summary
    if not ctx.require(list(s.columns) == COLS and list(s["Algorithm"]) == names, "summary-shape", f"{list(s.columns)} {list(s.iloc[:, 0])}"):
        return
    for j in range(len(names)):
        want = []
        for f in (out.good[j], out.best[j]):
            want += [f.area, f.area / out.space.area if out.space.area else f.area, f.density, f.density / out.space.density if out.space.density else f.density, f.purity]
        got = s.iloc[j, 1:].to_numpy(float)
        ctx.event("summary_cell", len(want))
        ctx.require(np.allclose(got, want), "summary", lambda: f"{names[j]}: table has {got}, footprints {want}")
    ctx.distinct(len(z), len(names), q["purity"], ctx.index)
    ctx.sample({"instances": len(z), "algorithms": len(names), "areas": [f.area for f in out.best]})


def measured(ctx: Ctx) -> None:
    """The measurements of any region, from tiny to vast, in parts and with holes."""
    rng = ctx.rng
    scale = 10.0 ** float(rng.choice([-6, -3, -1, 0, 0, 1, 3, 6]))
    g = region(rng)
    if g is not None:
        g = affinity.scale(g, scale, scale, origin=(0, 0))
    n = int(rng.choice([1, 2, 5, 40, 400]))
    z = rng.normal(size=(n, 2)) * float(rng.choice([0.5, 3, 10])) * scale
    good = rng.random(n) < rng.choice([0.0, 0.3, 0.7, 1.0])
    f = Footprint.from_polygon(g, z, good)
    if g is None or g.is_empty:
        ctx.event("no_region")
        ctx.require((f.polygon is None or f.polygon.is_empty) and f.area == f.elements == f.good_elements == f.density == f.purity == 0, "empty", f"no region: {f}")
        return
    m = tr.inside(g, z)
    el, ge = int(m.sum()), int((m & good).sum())
    ctx.event("measured_region")
    ctx.event("tiny_region", int(g.area < 1e-3))
    ctx.require(f.polygon is not None and f.polygon.equals(g), "region", "another region than was given")
    ctx.require(np.isclose(f.area, g.area, atol=0) and (f.elements, f.good_elements) == (el, ge), "measured", f"area {f.area}, {f.elements}, {f.good_elements} for {g.area}, {el}, {ge}")
    ctx.require(np.isclose(f.density, el / g.area, atol=0) and np.isclose(f.purity, ge / el if el else 0), "measured", f"density {f.density}, purity {f.purity} for {el}, {ge} in {g.area}")
    ctx.distinct(n, el, ge, scale, ctx.index)


main(
    "J01",
    [Family("metrics", case, 130, 2500, 240.0), Family("measured", measured, 600, 10000, 60.0)],
    rule="random planar instances (one or two groups, duplicates, different scales) x 1-4 algorithms, clear or noisy regions, all-good, never-good, "
    "unselected and too few instances x purity x experimental or predicted performance; distinct = sizes, purity and data",
    assumptions=["shapely's area, containment and hull are trusted"],
    required_events=["footprint", "empty_footprint", "too_few", "repeated_only", "instance_inside", "bad_instance_inside", "summary_cell", "many_algorithms", "measured_region", "tiny_region"],
)
