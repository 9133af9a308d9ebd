"""E01: the density filter thins dense regions: everything removed is covered, everything kept is separate."""

import numpy as np

from monitor import data as d
from monitor.harness import Ctx, Family, main

from instancespace.utils.filter import compute_uniformity, do_filter

TYPES = ["Ftr", "Ftr&AP", "Ftr&Good", "Ftr&AP&Good"]


def case(ctx: Ctx) -> None:
    rng = ctx.rng
    n, k, a = int(rng.choice([2, 3, 8, 20, 45])), int(rng.integers(1, 5)), int(rng.integers(1, 6))
    if ctx.index % 40 == 7:
        n, k, a = int(rng.integers(100, 400)), int(rng.integers(2, 12)), int(rng.integers(1, 16))
        ctx.event("large")
    kind = TYPES[int(rng.integers(4))]
    lattice = rng.random() < 0.5
    if lattice:  # distances that are exactly the limit
        x = rng.integers(0, 5, size=(n, k)).astype(float)
        y = rng.integers(0, 4, size=(n, a)).astype(float)
        dist = float(rng.choice([0.5, 1.0, 2.0, 3.0]))
    else:
        x, y = rng.normal(size=(n, k)), rng.normal(size=(n, a))
        if rng.random() < 0.3:
            x[rng.integers(n, size=n // 2)] = x[0]
        dist = float(rng.choice([0.05, 0.3, 0.7, 1.5, 50.0]))
    yb = rng.random((n, a)) < rng.choice([0.3, 0.8, 0.95, 1.0])
    x0, y0, yb0 = x.copy(), y.copy(), yb.copy()
    removed, dissim, visa, unif = do_filter(x, y, yb, kind, dist)
    ctx.require(d.exact(x, x0) and d.exact(y, y0) and d.exact(yb, yb0), "input-changed", "the filter changed its inputs")
    removed, dissim, visa = (np.asarray(v, bool) for v in (removed, dissim, visa))
    if not ctx.require(removed.shape == dissim.shape == visa.shape == (n,), "shape", "wrong shapes"):
        return
    lim = np.sqrt(a / k) * dist

    def near(i, j):  # noqa: ANN001, ANN202
        r = np.sqrt(((x[i] - x[j]) ** 2).sum())
        ry = np.sqrt(((y[i] - y[j]) ** 2).sum())
        close = abs(r - dist) < 1e-9 * dist and not (lattice and r == dist)
        closey = "AP" in kind and abs(ry - lim) < 1e-9 * lim
        both = bool((yb[i] & yb[j]).all())
        alike = ("AP" not in kind or ry <= lim) and ("Good" not in kind or both)
        if r == dist:
            ctx.event("exactly_at_limit")
        return r <= dist, r <= dist and alike, close or closey

    kept = np.flatnonzero(~removed)
    unsure = False
    for j in range(n):
        pairs = [near(i, j) for i in kept if i < j]
        if any(u for *_x, u in pairs):
            unsure = True
            continue
        if removed[j]:
            ctx.event("removed_covered")
            ctx.require(any(s for _n, s, _u in pairs), f"uncovered-{kind}",
                        lambda: f"instance {j} was removed but no kept instance is redundant with it ({kind}, {dist})")
        else:
            ctx.event("kept_separate")
            ctx.require(not any(s for _n, s, _u in pairs), f"redundant-{kind}",
                        lambda: f"instance {j} was kept although an earlier kept one is redundant with it ({kind}, {dist})")
        nb = any(q for q, _s, _u in pairs)
        ctx.require(bool(dissim[j]) == (not nb), f"dissimilar-{kind}", lambda: f"instance {j}: dissimilar={dissim[j]}, neighbour kept={nb}")
        ctx.require(bool(visa[j]) == (nb and not removed[j]), f"visa-{kind}", lambda: f"instance {j}: visa={visa[j]}, removed={removed[j]}, neighbour kept={nb}")
        ctx.event("visa", int(visa[j]))
    ctx.require(not removed[0], "first", "the first instance has nothing to be redundant with")
    if len(kept) >= 2:
        dd = np.sqrt(((x[kept][:, None, :] - x[kept][None, :, :]) ** 2).sum(-1))
        np.fill_diagonal(dd, np.inf)
        nn = dd.min(1)
        if nn.mean() > 0 and len(kept) > 2:
            ctx.event("uniformity")
            want = 1 - nn.std(ddof=1) / nn.mean()
            ctx.require(np.isclose(unif, want, rtol=1e-7, atol=1e-7), "uniformity", f"{unif} reported, {want} expected")
            ctx.require(np.isclose(compute_uniformity(x, removed), want, rtol=1e-7, atol=1e-7), "uniformity-fn", "differs")
    again = do_filter(x, y, yb, kind, dist)
    ctx.require(d.exact(again[0], removed), "repeatable", "a second run removed other instances")
    ctx.distinct(kind, n, k, a, lattice, dist, int(removed.sum()), int(visa.sum()))
    ctx.sample({"type": kind, "distance": dist, "n": n, "removed": np.flatnonzero(removed), "visa": np.flatnonzero(visa), "unsure": unsure})


main(
    "E01",
    [Family("filter", case, 1600, 30000)],
    rule="random clouds and integer lattices (distances exactly at the limit, duplicates) x four similarity types x "
    "distances; distinct = (type, sizes, distance, numbers removed and kept as visa)",
    assumptions=["distances within 1e-9 of the limit, other than exact ones on a lattice, are not judged"],
    required_events=["removed_covered", "kept_separate", "visa", "uniformity", "exactly_at_limit", "large"],
)
