"""G01: what the projection reports about itself agrees with itself."""

import numpy as np
from scipy.spatial.distance import pdist

from monitor import data as d
from monitor.harness import Ctx, Family, main
from monitor.pilot import consistent, problem, run

from instancespace.data.options import PilotOptions


def analytic(ctx: Ctx) -> None:
    rng = ctx.rng
    x, y, labs = problem(rng, big=True, large=ctx.index % 25 == 7)
    x0, y0 = x.copy(), y.copy()
    out = run(x, y, labs, PilotOptions.default(analytic=True))
    ctx.require(d.exact(x, x0) and d.exact(y, y0), "input-changed", "the projection changed its inputs")
    if not consistent(ctx, x, y, labs, out, "analytic"):
        return
    ctx.distinct(x.shape, y.shape, ctx.index)


def numerical(ctx: Ctx) -> None:
    rng = ctx.rng
    x, y, labs = problem(rng, large=ctx.index % 100 == 7)
    k, a = x.shape[1], y.shape[1]
    m = k + a
    tries = int(rng.integers(1, 4))
    kw = {}
    if rng.random() < 0.5:
        kw["x0"] = (2 * rng.random((2 * m + 2 * k, tries)) - 1) * float(rng.choice([1, 1, 2.5]))
        if rng.random() < 0.5:
            kw["x0"] = kw["x0"].tolist()
    out = run(x, y, labs, PilotOptions.default(analytic=False, n_tries=tries, **kw))
    if not consistent(ctx, x, y, labs, out, "numerical"):
        return
    alpha, eopt, perf = np.asarray(out.alpha, float), np.asarray(out.eoptim, float), np.asarray(out.perf, float)
    if not ctx.require(alpha.shape == (2 * m + 2 * k, tries) and eopt.shape == perf.shape == (tries,), "trial-shape", f"{alpha.shape} {eopt.shape}"):
        return
    ctx.require(out.X0 is not None and np.shape(out.X0) == alpha.shape, "start-shape", f"{np.shape(out.X0)}")
    if "x0" in kw:
        ctx.event("given_start")
        ctx.require(d.exact(np.asarray(out.X0), np.asarray(kw["x0"])), "start", "the given starting points were not used")
    hd, xb = pdist(x), np.hstack([x, y])
    errs, cors = [], []
    for t in range(tries):
        A, BC = alpha[: 2 * k, t].reshape(2, k), alpha[2 * k :, t].reshape(m, 2)
        z = x @ A.T
        errs.append(((xb - z @ BC.T) ** 2).mean())
        cors.append(np.corrcoef(hd, pdist(z))[0, 1])
        ctx.event("trial")
    ctx.require(np.allclose(eopt, errs, rtol=1e-4), "trial-error", lambda: f"trial errors {eopt} reported, {errs} observed")
    ctx.require(np.allclose(perf, cors, rtol=1e-4, atol=1e-6), "trial-quality", lambda: f"trial qualities {perf} reported, {cors} observed")
    ctx.distinct(x.shape, y.shape, tries, "x0" in kw, ctx.index)
    ctx.sample({"features": k, "algorithms": a, "tries": tries, "errors": errs, "quality": cors})


def given(ctx: Ctx) -> None:
    rng = ctx.rng
    x, y, labs = problem(rng, big=True)
    k, m = x.shape[1], x.shape[1] + y.shape[1]
    alpha = rng.normal(size=(2 * m + 2 * k, 1)) * 10.0 ** rng.integers(-2, 6)
    arg = alpha.tolist() if rng.random() < 0.5 else alpha.copy()
    out = run(x, y, labs, PilotOptions.default(analytic=False, n_tries=2, alpha=arg))
    if not consistent(ctx, x, y, labs, out, "given"):
        return
    ctx.event("given_solution")
    ctx.require(np.allclose(out.a, alpha[: 2 * k, 0].reshape(2, k)) and np.allclose(np.vstack([out.b, np.asarray(out.c).T]), alpha[2 * k :, 0].reshape(m, 2)),
                "given-unused", "the given solution was not used")
    ctx.distinct(x.shape, y.shape, ctx.index)


main(
    "G01",
    [Family("analytic", analytic, 400, 8000), Family("numerical", numerical, 120, 2500), Family("given", given, 200, 3000)],
    rule="random linear-trend problems (12-150 instances, 2-7 features, 1-5 algorithms, standardised or not) x "
    "analytic / BFGS (random or given starts) / pre-calculated; distinct = sizes, options and data",
    assumptions=["no missing values; more instances than features"],
    required_events=["coordinate", "error", "r2", "summary_cell", "trial", "given_start", "given_solution"],
)
