"""K03: graphs show the model."""

import os
import tempfile
from pathlib import Path

import numpy as np
import shapely
from shapely.geometry import Polygon

from monitor import figures as fg
from monitor import model as mm
from monitor.harness import Ctx, Family, main


def order(z: np.ndarray) -> np.ndarray:
    return z[np.lexsort(z.T[::-1])]


def title_has(ctx: Ctx, name: str, shown: dict, label: str) -> None:
    ctx.require(label.replace("_", " ") in shown["title"].replace("_", " "), "title", lambda: f"{name}: the title {shown['title']!r} does not name {label!r}")


def visible(ctx: Ctx, name: str, shown: dict) -> None:
    for g in shown["groups"]:
        z = g["z"][~np.isnan(g["z"]).any(axis=1)]
        ok = (z[:, 0] >= shown["xlim"][0]) & (z[:, 0] <= shown["xlim"][1]) & (z[:, 1] >= shown["ylim"][0]) & (z[:, 1] <= shown["ylim"][1])
        ctx.require(ok.all(), "visible", lambda: f"{name}: {(~ok).sum()} instances are outside of what is shown")


def values(ctx: Ctx, name: str, shown: dict, z: np.ndarray, v: np.ndarray) -> None:
    """Every instance with a value is shown once, where it is, in the colour of its value."""
    keep = ~np.isnan(v)
    got = [(p, None if g["value"] is None else g["value"][i], g["colour"][i]) for g in shown["groups"] for i, p in enumerate(g["z"]) if not np.isnan(p).any()]
    got = [t for t in got if t[1] is None or not np.isnan(t[1])]
    if not ctx.require(len(got) == keep.sum(), "points", lambda: f"{name}: {len(got)} points for {keep.sum()} instances"):
        return
    lo, hi = v[keep].min(), v[keep].max()
    used: set[int] = set()
    cols = []
    for p, val, colour in got:
        d = np.abs(z - p).sum(axis=1)
        d[[*used], ...] = np.inf
        d[~keep] = np.inf
        i = int(np.argmin(d))
        used.add(i)
        if not ctx.require(d[i] < 1e-9, "points", lambda: f"{name}: no instance at {p}"):
            return
        ctx.event("point")
        if val is not None:
            ctx.require(abs(val - v[i]) < 1e-9 * max(1, abs(v[i])), "value", lambda: f"{name}: instance {i} is shown with {val}, it has {v[i]}")
        cols.append((v[i], tuple(np.round(colour, 9))))
    cols.sort(key=lambda t: t[0])
    if hi > lo:  # the scale uses all colours: from dark (smallest) to bright (largest)
        ctx.event("scale")
        import matplotlib as mpl

        cm = mpl.colormaps["viridis"]
        for val, c in cols:
            t = (val - lo) / (hi - lo)
            near = [cm(min(1.0, max(0.0, t + e))) for e in (-0.006, 0.0, 0.006)]
            ctx.require(min(np.abs(np.array(c[:3]) - q[:3]).max() for q in near) < 1e-6 + 0.03, "colour", lambda: f"{name}: the colour of {val} in [{lo}, {hi}] is {c}")


def classes(ctx: Ctx, name: str, shown: dict, z: np.ndarray, want: dict[str, np.ndarray]) -> dict[str, np.ndarray]:
    """Each labelled group holds exactly its instances; groups can be told apart."""
    by: dict[str, list] = {}
    colour: dict[str, np.ndarray] = {}
    for g in shown["groups"]:
        if len(g["z"]) == 0:
            continue
        by.setdefault(g["label"].replace("_", " "), []).append(g["z"])
        colour[g["label"].replace("_", " ")] = g["colour"][0]
    full = {k.replace("_", " "): v for k, v in want.items() if v.any()}
    if not ctx.require(set(by) == set(full), "groups", lambda: f"{name}: shows {sorted(by)}, there are {sorted(full)}"):
        return {}
    for k, mask in full.items():
        ctx.event("group")
        got = order(np.vstack(by[k]))
        exp = order(z[mask])
        ctx.require(got.shape == exp.shape and np.allclose(got, exp), "group", lambda: f"{name}: {k!r} has {len(got)} points, other than its {len(exp)} instances")
    ctx.require(sorted(t.replace("_", " ") for t in shown["legend"]) == sorted(full), "legend", lambda: f"{name}: the legend is {shown['legend']}, the groups are {sorted(full)}")
    keys = sorted(full)
    for i, a in enumerate(keys):
        for b in keys[:i]:
            ctx.require(np.abs(colour[a][:3] - colour[b][:3]).max() > 1e-3, "same-colour", lambda: f"{name}: {a!r} and {b!r} have the same colour")
    return colour


def drawn(ctx: Ctx, name: str, shapes: list[dict], g: object, rng: np.random.Generator) -> None:
    g = g if g is not None else Polygon()
    pts = [s for sh in shapes for s in (r.mean(axis=0) for r in sh["rings"])]
    for p in getattr(g, "geoms", [g]):
        if not p.is_empty:
            pts += [np.array(p.representative_point().coords[0])]
            pts += [np.array(Polygon(r).representative_point().coords[0]) for r in p.interiors]
            lo, hi = np.array(p.bounds[:2]), np.array(p.bounds[2:])
            pts += list(lo + (hi - lo) * rng.uniform(-0.1, 1.1, size=(60, 2)))
    if not pts:
        ctx.event("nothing_drawn")
        return
    pts = np.array(pts)
    away = np.array([g.boundary.distance(shapely.Point(p)) > 1e-6 for p in pts]) if not g.is_empty else np.ones(len(pts), bool)
    pts = pts[away]
    got = np.zeros(len(pts), bool)
    for s in shapes:
        got |= fg.covers(s, pts)
    exp = shapely.contains_xy(g, pts[:, 0], pts[:, 1]) if not g.is_empty else np.zeros(len(pts), bool)
    ctx.event("region_drawn")
    if any(p.interiors for p in getattr(g, "geoms", [g]) if not p.is_empty):
        ctx.event("hole_drawn")
    ctx.require(np.array_equal(got, exp), "region", lambda: f"{name}: {(got != exp).sum()} of {len(pts)} places are drawn wrongly as in or out of the footprint")


def unit(v: np.ndarray, whole: bool = False) -> np.ndarray:
    axis = None if whole else 0
    lo, hi = np.nanmin(v, axis=axis), np.nanmax(v, axis=axis)
    return (v - lo) / np.where(hi > lo, hi - lo, 1)


def case(ctx: Ctx) -> None:
    rng = ctx.rng
    m = mm.model(rng, missing=ctx.family == "missing", big=ctx.index % 5 == 0, size=(int(rng.integers(100, 500)), 2, 12) if ctx.index % 25 == 7 else None)
    ctx.event("large", int(ctx.index % 25 == 7))
    want = mm.clone(m)
    d, z = want.data, want.pilot.z
    render = ctx.family == "rendered"
    with tempfile.TemporaryDirectory(dir=os.environ.get("ISA_SCRATCH")) as tmp:
        out = Path(tmp)
        with fg.watching(render) as seen:
            m.save_graphs(str(out) if ctx.index % 2 else out)
        on_disk = {p.name for p in out.iterdir()}
        if render:
            for p in out.iterdir():
                ctx.event("picture")
                ctx.require(p.read_bytes()[:8] == b"\x89PNG\r\n\x1a\n", "picture", f"{p.name} is not a picture")
    a = len(d.algo_labels)
    sim = want.opts.trace.use_sim
    y_foot, p_foot = (want.pythia.y_hat, want.pythia.selection0) if sim else (d.y_bin, d.p)
    y_ind, y_glb, xs = unit(d.y_raw), unit(np.log10(d.y_raw + 1), True), unit(d.x)

    def graph(name: str) -> dict | None:
        if not ctx.require(name in on_disk and name in seen, "file-missing", f"{name} was not drawn"):
            return None
        visible(ctx, name, seen[name][-1])
        return seen[name][-1]

    for j, label in enumerate(d.feat_labels):
        if (g := graph(f"distribution_feature_{label}.png")) is not None:
            values(ctx, f"feature {label}", g, z, xs[:, j])
            title_has(ctx, f"feature {label}", g, label)
    good_bad = lambda v: {"GOOD": np.asarray(v) == 1, "BAD": np.asarray(v) == 0}  # noqa: E731
    for j, label in enumerate(d.algo_labels):
        for kind, v in (("global", y_glb), ("individual", y_ind)):
            if (g := graph(f"distribution_performance_{kind}_normalized_{label}.png")) is not None:
                values(ctx, f"{kind} {label}", g, z, v[:, j])
                title_has(ctx, f"{kind} {label}", g, label)
        for name, v in ((f"binary_performance_{label}.png", d.y_bin[:, j]), (f"binary_svm_{label}.png", want.pythia.y_hat[:, j])):
            if (g := graph(name)) is not None:
                classes(ctx, name, g, z, good_bad(v))
                title_has(ctx, name, g, label)
        if (g := graph(f"footprint_{label}.png")) is not None:
            classes(ctx, f"footprint {label}", g, z, good_bad(y_foot[:, j]))
            title_has(ctx, f"footprint {label}", g, label)
            if (y_foot[:, j] == 1).any():
                drawn(ctx, f"footprint {label}", g["shapes"], want.trace.good[j].polygon, rng)
    if (g := graph("distribution_number_good_algos.png")) is not None:
        values(ctx, "number of good algorithms", g, z, np.asarray(d.num_good_algos, dtype=float) / a)
    if (g := graph("distribution_beta_score.png")) is not None:
        classes(ctx, "beta score", g, z, good_bad(d.beta))
    portfolio = lambda p: {("None" if i == 0 else d.algo_labels[i - 1]): np.asarray(p) == i for i in range(a + 1)}  # noqa: E731
    for name, p in (("distribution_portfolio.png", d.p), ("distribution_svm_portfolio.png", want.pythia.selection0)):
        if (g := graph(name)) is not None:
            classes(ctx, name, g, z, portfolio(p))
            ctx.event("portfolio")
    if (g := graph("footprint_portfolio.png")) is not None:
        colour = classes(ctx, "portfolio footprints", g, z, portfolio(p_foot))
        for j, label in enumerate(d.algo_labels):
            c = colour.get(label.replace("_", " "))
            if c is not None:
                mine = [s for s in g["shapes"] if np.abs(s["colour"][:3] - c[:3]).max() < 1e-6]
                drawn(ctx, f"portfolio footprint of {label}", mine, want.trace.best[j].polygon, rng)
    if d.s is not None and (g := graph("distribution_sources.png")) is not None:
        s = np.array(d.s)
        classes(ctx, "sources", g, z, {str(v): s == v for v in np.unique(s)})
        ctx.event("sources")
    ctx.distinct(d.x.shape, d.y.shape, sim, d.s is None, ctx.index)
    ctx.sample({"instances": len(z), "graphs": sorted(seen)[:40]})


main(
    "K03",
    [Family("plain", case, 60, 1500), Family("missing", case, 60, 1500), Family("rendered", case, 8, 60)],
    rule="random finished models drawn while every saved figure is recorded; the points, values, colours, groups, legends and regions it shows are compared with the model; distinct = sizes, options and data",
    assumptions=["what matplotlib is told to draw is what the picture shows (pictures themselves are only checked to be there, in family rendered)", "raw performance is larger than -1, as the logarithmic scale needs"],
    required_events=["point", "scale", "group", "portfolio", "sources", "region_drawn", "hole_drawn", "picture"],
)
