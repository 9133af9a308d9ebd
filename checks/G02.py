"""G02: the projection is as good as its method can make it."""

import numpy as np
from scipy.spatial.distance import pdist

from monitor.harness import Ctx, Family, main
from monitor.pilot import best_rank2, problem, run

from instancespace.data.options import PilotOptions


def slope(x, xb, alpha, k):  # noqa: ANN001, ANN201
    """Largest partial derivative of the mean squared reconstruction error at a solution."""
    A, V = alpha[: 2 * k].reshape(2, k), alpha[2 * k :].reshape(xb.shape[1], 2)
    r = 2 / xb.size * (x @ A.T @ V.T - xb)
    return max(np.abs(V.T @ r.T @ x).max(), np.abs(r.T @ x @ A.T).max())


def analytic(ctx: Ctx) -> None:
    rng = ctx.rng
    x, y, labs = problem(rng, big=True, large=ctx.index % 25 == 7)
    out = run(x, y, labs, PilotOptions.default(analytic=True))
    xb = np.hstack([x, y])
    best = best_rank2(x, xb)
    ctx.require(float(out.error) >= best * (1 - 1e-9), "impossible-error", f"{out.error} < {best}")
    V = np.vstack([out.b, np.asarray(out.c).T])
    w = np.linalg.eigvalsh(xb.T @ xb)[::-1]
    ctx.event("principal_subspace")
    ctx.require(np.allclose(V.T @ V, np.eye(2), atol=1e-7), "not-orthonormal", f"{V.T @ V}")
    if w[1] - w[2] > 1e-6 * w[0]:
        ctx.require(np.isclose(np.trace(V.T @ (xb.T @ xb) @ V), w[0] + w[1], rtol=1e-7), "not-principal", "the directions are not the principal ones")
    ctx.require(np.allclose(np.asarray(out.a).T, np.linalg.lstsq(x, xb @ V, rcond=None)[0], rtol=1e-5, atol=1e-7), "not-least-squares", "A is not the least-squares map to the principal directions")
    ctx.distinct(x.shape, y.shape, ctx.index)


def numerical(ctx: Ctx) -> None:
    rng = ctx.rng
    x, y, labs = problem(rng, large=ctx.index % 100 == 7)
    k, a = x.shape[1], y.shape[1]
    m = k + a
    tries = int(rng.integers(1, 4))
    kw = {}
    if rng.random() < 0.5:
        kw["x0"] = 2 * rng.random((2 * m + 2 * k, tries)) - 1
        if rng.random() < 0.5:
            kw["x0"] = kw["x0"].tolist()
    out = run(x, y, labs, PilotOptions.default(analytic=False, n_tries=tries, **kw))
    xb = np.hstack([x, y])
    best = best_rank2(x, xb)
    ctx.require(float(out.error) >= best * (1 - 1e-6), "impossible-error", f"{out.error} < {best}")
    alpha = np.asarray(out.alpha, float)
    if not ctx.require(alpha.shape == (2 * m + 2 * k, tries), "trial-shape", f"{alpha.shape}"):
        return
    hd = pdist(x)
    errs, cors = [], []
    for t in range(tries):
        A, BC = alpha[: 2 * k, t].reshape(2, k), alpha[2 * k :, t].reshape(m, 2)
        z = x @ A.T
        errs.append(((xb - z @ BC.T) ** 2).mean())
        cors.append(np.corrcoef(hd, pdist(z))[0, 1])
        start = np.asarray(out.X0, float)[:, t]
        s0 = ((xb - x @ start[: 2 * k].reshape(2, k).T @ start[2 * k :].reshape(m, 2).T) ** 2).mean()
        ctx.event("trial")
        g = slope(x, xb, alpha[:, t], k)
        ctx.event("slope")
        ctx.require(g < 5e-4, "not-stationary", f"trial {t} ends where the error still falls with slope {g} (start: {slope(x, xb, start, k)})")
        ctx.require(errs[-1] <= s0 * (1 + 1e-6), "worse-than-start", f"trial {t}: error {errs[-1]} from a start of {s0}")
    picks = [t for t in range(tries) if np.allclose(np.asarray(out.a), alpha[: 2 * k, t].reshape(2, k), rtol=1e-9)]
    ctx.require(any(cors[t] >= max(cors) - 1e-5 for t in picks), "selected-trial", f"trials {cors}: the result is that of {picks}")
    near = sum(e * xb.size <= best * 1.02 + 1e-6 for e in errs)
    ctx.event("trial_at_optimum", near)
    ctx.note["near"] = near
    ctx.require(min(errs) * xb.size <= best * 1.05 + 1e-6, "far-from-optimum", f"smallest error {min(errs) * xb.size}, optimum {best}")
    ctx.distinct(x.shape, y.shape, tries, "x0" in kw, ctx.index)
    ctx.sample({"features": k, "algorithms": a, "tries": tries, "errors": errs, "optimum": best / xb.size, "quality": cors})


main(
    "G02",
    [Family("analytic", analytic, 600, 8000), Family("numerical", numerical, 300, 4000)],
    rule="random linear-trend problems (12-150 instances, 2-7 features, 1-5 algorithms, standardised or not) x "
    "analytic / BFGS with 1-3 trials from random or given starts; distinct = sizes, options and data",
    assumptions=["no missing values; more instances than features",
                 "the best BFGS trial is required within 5% of the reduced-rank-regression optimum (every one of thousands observed was within 2%); every trial must end where the error is flat (slope 5e-4; never above 1e-5 observed)"],
    required_events=["principal_subspace", "trial", "trial_at_optimum", "slope"],
)
