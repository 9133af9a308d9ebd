"""I01: the boundary of the space encloses exactly what it should."""

import numpy as np
from scipy import stats

from monitor.harness import Ctx, Family, main

from instancespace.data.options import CloisterOptions
from instancespace.stages.cloister import CloisterInput, CloisterStage


def run(x, a, o):
    return CloisterStage._run(CloisterInput(x, a, o))


def area(v) -> float:
    return 0.5 * float(np.sum(v[:, 0] * np.roll(v[:, 1], -1) - v[:, 1] * np.roll(v[:, 0], -1)))


def outside(points, v):
    """How far points are outside the convex polygon v (anticlockwise)."""
    e = np.roll(v, -1, axis=0) - v
    nrm = np.stack([e[:, 1], -e[:, 0]], axis=1) / np.maximum(np.linalg.norm(e, axis=1), 1e-300)[:, None]
    return ((points[:, None, :] - v[None]) * nrm[None]).sum(-1).max(axis=1)


def hull_of(ctx: Ctx, key: str, v, points, scale: float) -> bool:
    v = np.asarray(v, float)
    if not ctx.require(v.ndim == 2 and v.shape[1] == 2 and len(v) >= 3 and np.isfinite(v).all(), key + "-shape", f"boundary of shape {v.shape}"):
        return False
    if area(v) < 0:
        v = v[::-1]
    e = np.roll(v, -1, axis=0) - v
    turn = e[:, 0] * np.roll(e[:, 1], -1) - e[:, 1] * np.roll(e[:, 0], -1)
    ok = ctx.require(turn.min() > -1e-9 * scale**2, key + "-convex", "the boundary is not convex and in order")
    w = np.abs(np.linalg.norm(e, axis=1).sum())
    # once around only: the winding of a convex closed walk is its area over that of the hull
    far = outside(points, v)
    ok &= ctx.require(far.max() <= 1e-9 * scale, key + "-encloses", lambda: f"a corner is {far.max():.3g} outside (size {scale:.3g}, length {w:.3g})")
    d = np.min(np.linalg.norm(v[:, None] - points[None], axis=2), axis=1) if len(points) <= 4096 else np.zeros(1)
    ok &= ctx.require(d.max() <= 1e-9 * scale, key + "-vertices", lambda: f"a vertex is {d.max():.3g} from every corner")
    ang = np.arctan2(e[:, 1], e[:, 0])
    tot = ((np.roll(ang, -1) - ang + np.pi) % (2 * np.pi) - np.pi).sum()
    ok &= ctx.require(abs(tot - 2 * np.pi) < 1e-6, key + "-winding", f"the boundary turns by {tot:.3f}")
    return ok


def case(ctx: Ctx) -> None:
    rng = ctx.rng
    k = int(rng.integers(2, 9 if ctx.tier == "quick" else 11))
    n = int(rng.integers(4, 80))
    if ctx.index % 60 == 7:
        k, n = int(rng.integers(9, 13)), int(rng.integers(100, 2000))
        ctx.event("large")
    base = rng.normal(size=(n, int(rng.integers(1, k + 1))))
    x = base @ rng.normal(size=(base.shape[1], k)) + rng.choice([0.05, 0.5, 2.0]) * rng.normal(size=(n, k))
    style = ctx.index % 4
    if style:
        x = (x - x.mean(0)) / x.std(0, ddof=1)
    if style == 2:
        x[:, 0] -= x[:, 0].min() + (0 if rng.random() < 0.5 else -0.5)  # a feature that is never negative
        if rng.random() < 0.6:  # several such, and opposed to each other
            x[:, 0] -= x[:, 0].min()
            x[:, 1] = rng.choice([-1.0, 1.0]) * x[:, 0] + rng.choice([0.05, 0.5]) * rng.normal(size=n)
            x[:, 1] -= x[:, 1].min()
            ctx.event("corner_at_zero")
    if style == 3:
        x = np.round(x * 2) / 2
        x[0], x[1] = x.max(0) + 1, x.min(0) - 1
    a = rng.normal(size=(2, k)) * 10.0 ** rng.integers(-2, 3)
    thr, pv = float(rng.choice([0.3, 0.5, 0.7, 0.9, 0.99])), float(rng.choice([0.001, 0.05, 0.5]))
    x0, a0 = x.copy(), a.copy()
    out = run(x, a, CloisterOptions(p_val=pv, c_thres=thr))
    ctx.require(np.array_equal(x, x0) and np.array_equal(a, a0), "input-changed", "the inputs were changed")

    lo, hi = x.min(0), x.max(0)
    bits = (np.arange(2**k)[:, None] >> np.arange(k)) & 1
    corners = np.where(bits, hi, lo)
    z = corners @ a.T
    scale = float(np.abs(z).max())
    if not hull_of(ctx, "edge", out.z_edge, z, scale):
        return
    ctx.event("corner", len(z))
    edge = np.asarray(out.z_edge)
    edge = edge[::-1] if area(edge) < 0 else edge
    far = outside(x @ a.T, edge)
    ctx.event("instance", n)
    ctx.require(far.max() <= 1e-9 * scale, "instance-outside", lambda: f"an instance is {far.max():.3g} outside the boundary of the space")

    # combinations that contradict a significant strong correlation
    r = np.corrcoef(x, rowvar=False)
    t = np.abs(r) * np.sqrt((n - 2) / np.maximum(1 - r**2, 1e-300))
    p = 2 * stats.t.sf(t, n - 2)
    np.fill_diagonal(p, 1)
    if np.any(np.abs(p - pv) < 1e-9) or np.any(np.abs(np.abs(r) - thr) < 1e-12):
        return
    drop = np.zeros(len(corners), bool)
    sg = np.sign(corners)
    for i in range(k):
        for j in range(i + 1, k):
            if p[i, j] <= pv and r[i, j] > thr:
                drop |= sg[:, i] != sg[:, j]
                ctx.event("positive_correlation")
            elif p[i, j] <= pv and r[i, j] < -thr:
                drop |= sg[:, i] == sg[:, j]
                ctx.event("negative_correlation")
            elif abs(r[i, j]) > thr:
                ctx.event("insignificant_correlation")
    keep = z[~drop]
    ec = np.asarray(out.z_ecorr)
    flat = len(keep) < 3 or np.linalg.svd(keep - keep.mean(0), compute_uv=False)[-1] < 1e-9 * scale
    if flat:
        ctx.event("nothing_left")
        ctx.require(np.array_equal(ec, out.z_edge), "fallback", "the correlated boundary is not the whole one though nothing is left of it")
    else:
        ctx.event("pruned" if drop.any() else "nothing_pruned")
        hull_of(ctx, "correlated", ec, keep, scale)
        ctx.require(ec.ndim == 2 and outside(ec, edge).max() <= 1e-9 * scale, "nested", "the correlated boundary leaves the whole one")
    ctx.distinct(k, n, style, thr, pv, int(drop.sum()), ctx.index)
    ctx.sample({"features": k, "dropped": int(drop.sum()), "corners": len(z), "vertices": len(edge), "correlated vertices": len(ec)})


main(
    "I01",
    [Family("boundary", case, 600, 8000)],
    rule="random feature tables of 2-8 (thorough 10) features, from independent to nearly collinear, standardised, one-signed or with repeated "
    "values x random projections x thresholds; distinct = sizes, thresholds, number of excluded corners and data",
    assumptions=["at least two features, none constant, no missing values (the projection of the box is then not degenerate)"],
    required_events=["corner", "instance", "positive_correlation", "negative_correlation", "insignificant_correlation", "nothing_left", "pruned", "nothing_pruned", "large"],
)
