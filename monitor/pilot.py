"""Shared by the projection monitors: problems, self-consistency, and the attainable optimum."""

import numpy as np
from scipy.spatial.distance import pdist

from monitor import data as d
from monitor.harness import Ctx

from instancespace.stages.pilot import PilotInput, PilotStage


def problem(rng, big=False, large=False):  # noqa: ANN001, ANN201
    n = int(rng.choice([12, 25, 60] if not big else [25, 60, 150]))
    k, a = int(rng.integers(2, 5 if not big else 8)), int(rng.integers(1, 4 if not big else 6))
    if large:
        n, k, a = int(rng.integers(200, 1500)), int(rng.integers(9, 30)), int(rng.integers(7, 16))
        if not big:  # (the numerical solution takes long with many columns)
            n, k, a = 400, 8, 7
    x = rng.normal(size=(n, k)) @ (np.eye(k) + 0.4 * rng.normal(size=(k, k)))
    y = x @ rng.normal(size=(k, a)) + rng.uniform(0.05, 1.5) * rng.normal(size=(n, a))
    if rng.random() < 0.5:
        x, y = (x - x.mean(0)) / x.std(0), (y - y.mean(0)) / y.std(0)
    else:
        x = x + rng.normal(size=k) * 0.5
    return x, y, [f"feature_{c}{j}" for j, c in enumerate(("pqrstuvwxyz" * 3)[:k])]


def consistent(ctx: Ctx, x, y, labs, out, what):  # noqa: ANN001, ANN201
    n, k = x.shape
    a = y.shape[1]
    A, B, C, Z = (np.asarray(v, float) for v in (out.a, out.b, out.c, out.z))
    for nm, m, shp in (("A", A, (2, k)), ("B", B, (k, 2)), ("C", C, (2, a)), ("Z", Z, (n, 2))):
        if not ctx.require(m.shape == shp, f"shape-{nm}", f"{what}: {nm} has shape {m.shape}, expected {shp}"):
            return False
    zz = x @ A.T
    ctx.event("coordinate", Z.size)
    ctx.require(np.allclose(Z, zz, rtol=1e-7, atol=1e-8 * np.abs(zz).max()), f"coordinates-{what}", f"{what}: instances are not where the projection matrix puts them")
    xb = np.hstack([x, y])
    xh = Z @ np.hstack([B.T, C])
    err = ((xb - xh) ** 2).sum()
    ctx.event("error")
    ctx.require(np.isclose(float(out.error), err, rtol=1e-6), f"error-{what}", f"{what}: error {out.error} reported, {err} observed")
    r2 = np.array([np.corrcoef(xb[:, j], xh[:, j])[0, 1] ** 2 for j in range(k + a)])
    got = np.asarray(out.r2, float)
    if ctx.require(got.shape == r2.shape, f"r2-shape-{what}", f"{what}: R2 has shape {got.shape}"):
        ctx.event("r2", k + a)
        ctx.require(np.allclose(got, r2, rtol=1e-6, atol=1e-9), f"r2-{what}", lambda: f"{what}: R2 {got} reported, {r2} observed")
    s = out.pilot_summary if hasattr(out, "pilot_summary") else out[10]
    ctx.event("summary_cell", 2 * k)
    cols = list(s.columns)
    if ctx.require(all(l in cols for l in labs), f"summary-columns-{what}", f"{what}: columns {cols}"):
        ctx.require(np.allclose(s[labs].to_numpy(float), A, rtol=1e-9), f"summary-{what}", f"{what}: summary is not the projection matrix")
        rest = [c for c in cols if c not in labs]
        ctx.require(len(rest) == 1 and list(s[rest[0]]) == ["Z_{1}", "Z_{2}"], f"summary-rows-{what}", f"{what}: {s.to_csv()}")
    return True


def best_rank2(x, xb):  # noqa: ANN001, ANN201
    """The smallest error any rank-2 linear map of the features can have (reduced-rank regression)."""
    coef = np.linalg.lstsq(x, xb, rcond=None)[0]
    fit = x @ coef
    sv = np.linalg.svd(fit, compute_uv=False)
    return ((xb - fit) ** 2).sum() + (sv[2:] ** 2).sum()


def run(x, y, labs, opts):  # noqa: ANN001, ANN201
    return PilotStage._run(PilotInput(x, y, labs, opts))  # noqa: SLF001


