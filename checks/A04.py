"""A04: an instance space depends on its data and options only, however it is built."""

import os
import pickle
import random
import subprocess
import sys
import tempfile
from copy import deepcopy
from pathlib import Path
from typing import NamedTuple

import numpy as np
import pandas as pd
from numpy.typing import NDArray

from monitor import data as md
from monitor import model as mm
from monitor import pipeline as pl
from monitor.harness import VERIF, Ctx, Family, main

from instancespace.data.options import PrelimOptions
from instancespace.instance_space import InstanceSpace
from instancespace.stage_runner import StageRunningError
from instancespace.stages.prelim import PrelimStage
from instancespace.stages.preprocessing import PreprocessingStage
from instancespace.stages.stage import Stage

READS = {s: set(s._inputs()._fields) for s in pl.STAGES}  # noqa: SLF001


def build_order(rng: np.random.Generator) -> list:
    """Any order in which every stage follows those it must follow."""
    before = {pl.PrelimStage: {pl.PreprocessingStage}, pl.SiftedStage: {pl.PrelimStage}, pl.PilotStage: {pl.SiftedStage},
              pl.PythiaStage: {pl.PilotStage}, pl.CloisterStage: {pl.PilotStage}, pl.TraceStage: {pl.PythiaStage, pl.CloisterStage}}
    left, out = list(pl.STAGES), []
    while left:
        ready = [s for s in left if not before.get(s, set()) & set(left)]
        out.append(ready[int(rng.integers(len(ready)))])
        left.remove(out[-1])
    return out


def ways(ctx: Ctx) -> None:
    rng = ctx.rng
    p = pl.problem(rng, missing=float(rng.choice([0.0, 0.0, 0.02])), wide=ctx.index % 10 == 5)
    s = pl.space(p)
    given = mm.freeze((s.metadata, s.options))
    np.random.seed(1)
    with pl.recorded() as out:
        m1 = s.build()
    first = deepcopy(pl.results(out))
    ctx.event("build")
    picture = mm.freeze(m1)

    def same(what: str, got: dict) -> None:
        diff = pl.unlike(first, pl.results(got), tol=1e-9)
        ctx.event("compared")
        ctx.require(not diff, what, lambda: f"{what}: differs from building at once in {diff[:6]} (of {len(diff)})")

    for part in ("data", "feat_sel", "prelim", "sifted", "pilot", "cloister", "pythia", "trace"):
        group = getattr(m1, part)
        for key in group.__dataclass_fields__:
            made = f"{part}_summary" if key == "summary" else key
            if made in first:
                ctx.event("model_field")
                value = getattr(group, key)
                if key in ("selection0", "selection1"):  # numbered from 1 in the model
                    value = np.asarray(value) - 1
                diff = pl.unlike(first[made], value, tol=0)
                ctx.require(not diff, "model", f"the model's {part}.{key} is not what was built: {diff[:3]}")
    ctx.require(m1.opts == s.options, "model", "the model has other options")
    ctx.require(s.model is m1 or not pl.unlike(s.model, m1), "model", "the model differs from what building returned")
    np.random.seed(int(rng.integers(1000)))
    random.seed(int(rng.integers(1000)))
    got: dict = {}
    seen = []
    for ev in pl.space(p).run_iter():
        seen.append(ev.stage)
        got.update(ev.output._asdict())
        np.random.random(3)
    ctx.require(sorted(map(str, seen)) == sorted(map(str, pl.STAGES)), "iter-stages", lambda: f"ran {[c.__name__ for c in seen]}")
    same("run_iter", got)
    other = s if rng.random() < 0.5 else pl.space(p)
    last = [pl.TraceStage, pl.PythiaStage, pl.PilotStage, pl.SiftedStage][int(rng.integers(4))]
    part = pl.results(other.run_until_stage(last))
    diff = pl.unlike({k: first[k] for k in part if k in last._outputs()._fields}, {k: v for k, v in part.items() if k in last._outputs()._fields}, tol=1e-9)  # noqa: SLF001
    ctx.event("until")
    ctx.require(not diff and set(last._outputs()._fields) - {"svm", "cp"} <= set(part), "run_until", lambda: f"stopping at {last.__name__} gives other {diff[:6]}")  # noqa: SLF001
    # one stage at a time, in another order, some of them twice
    order = build_order(rng)
    if other is not s:
        other = s
    other.run_until_stage(PreprocessingStage)
    got = {}
    for st in order:
        for _ in range(1 + int(rng.random() < 0.25)):
            got.update(other.run_stage(st)._asdict())
            ctx.event("stage")
    same("run_stage", got)
    # an earlier stage again, and what follows it
    st = [pl.PrelimStage, pl.PilotStage, pl.CloisterStage, pl.PythiaStage][int(rng.integers(4))]
    got = dict(got)
    level = order.index(st)
    for q in order[level:]:
        got.update(other.run_stage(q)._asdict())
    same("re-run", got)
    np.random.seed(2)
    m2 = s.build()
    diff = pl.unlike(m1, m2, tol=1e-9)
    ctx.require(not diff, "rebuild", lambda: f"building again gives other {diff[:6]}")
    ctx.require(mm.freeze(m1) == picture, "model-changed", "later runs changed the model that was returned")
    ctx.require(mm.freeze((s.metadata, s.options)) == given, "caller-data", "building changed the metadata or options it was given")
    ctx.distinct([c.__name__ for c in order], ctx.index, last.__name__)
    ctx.sample({"order": [c.__name__ for c in order], "groups": p["groups"]})


def child(job: dict, tmp: Path, name: str, hashseed: int) -> subprocess.Popen:
    (tmp / f"{name}.in").write_bytes(pickle.dumps(job))
    env = {**os.environ, "PYTHONHASHSEED": str(hashseed)}
    return subprocess.Popen(
        [sys.executable, "-B", str(VERIF / "monitor/pipeproc.py"), str(tmp / f"{name}.in"), str(tmp / f"{name}.out")],
        env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
    )


def processes(ctx: Ctx) -> None:
    rng = ctx.rng
    p = pl.problem(rng)
    if ctx.index % 2 == 0:
        p["groups"]["sifted"]["flag"] = True
    if ctx.index % 4 == 1:  # the searched kernel, in few evaluations
        p["groups"]["pythia"]["params"] = None
        p["x"], p["labels"] = p["x"][:40], p["labels"][:40]
        p["y"] = p["y"][:40]
        p["index"] = None if p["index"] is None else p["index"][:40]
        p["sources"] = None if p["sources"] is None else p["sources"][:40]
    jobs = [
        ("one", {"problem": p, "extra": {"parallel": {"flag": False, "n_cores": 1}}, "random": 0, "way": "build"}, 0),
        ("two", {"problem": p, "extra": {"parallel": {"flag": True, "n_cores": int(rng.integers(2, 5))}}, "random": 5, "way": "iter"}, int(rng.integers(1, 1000))),
        ("three", {"problem": p, "extra": {"parallel": {"flag": bool(rng.random() < 0.5), "n_cores": int(rng.integers(1, 7))}}, "random": 9, "way": "iter"}, int(rng.integers(1000, 2000))),
    ]
    out = {}
    with tempfile.TemporaryDirectory(dir=os.environ.get("ISA_SCRATCH")) as tmp:
        for name, job, hs in jobs:
            proc = child(job, Path(tmp), name, hs)
            try:
                err = proc.communicate(timeout=280)[1]
            finally:
                if proc.poll() is None:
                    proc.kill()
            path = Path(tmp) / f"{name}.out"
            if not path.is_file():
                raise RuntimeError(f"child {name}: {err.decode()[-1500:]}")
            out[name] = pickle.loads(path.read_bytes())
            ctx.event("process")
    for name, r in out.items():
        if not ctx.require("error" not in r, "failed", lambda: f"{name}: {r.get('error')} {r.get('trace', '')[-600:]}"):
            return
    for name in ("two", "three"):
        diff = pl.unlike(out["one"]["out"], out[name]["out"])
        ctx.event("compared")
        job = next(j for n, j, _ in jobs if n == name)
        ctx.require(not diff, "process", lambda: f"in another process, with {job['extra']}, in order {out[name]['order']}: other {diff[:6]} (of {len(diff)})")
    ctx.event("orders", len({tuple(out[n]["order"]) for n in ("two", "three")}))
    ctx.distinct(out["two"]["order"], out["three"]["order"], ctx.index)
    ctx.sample({"orders": [out["two"]["order"], out["three"]["order"]]})


class Counting(Stage):
    """A plugin that gives something else every time."""

    n = 0

    class In(NamedTuple):
        x: NDArray[np.double]

    class Out(NamedTuple):
        s: pd.Series | None

    @staticmethod
    def _inputs() -> type:
        return Counting.In

    @staticmethod
    def _outputs() -> type:
        return Counting.Out

    @staticmethod
    def _run(inputs):  # noqa: ANN001, ANN205
        Counting.n += 1
        return Counting.Out(pd.Series([f"run {Counting.n}"] * len(inputs.x)))


def requests(ctx: Ctx) -> None:
    """Arguments given to a run are used by it, and only by it; the model is that of the last build."""
    rng = ctx.rng
    p = pl.problem(rng)
    base = pl.space(p)
    for attempt in ("model",):
        try:
            getattr(base, attempt)
            ctx.violation("unbuilt-model", "there is a model before anything was built")
        except StageRunningError:
            ctx.event("no_model")
    changed = {g: dict(v) for g, v in p["groups"].items()}
    changed["perf"] = {**changed["perf"], "max_perf": not changed["perf"]["max_perf"], "epsilon": changed["perf"]["epsilon"] * 1.1}
    changed["selvars"] = {"feats": [f.removeprefix("feature_") if rng.random() < 0 else f for f in p["features"][: 1 + len(p["features"]) // 2]]}
    wanted = pl.space({**p, "groups": changed})
    plain = base.run_until_stage(PrelimStage)
    if ctx.index % 2:
        want = wanted.run_until_stage(PrelimStage)
        got = base.run_until_stage(PrelimStage, selvars_options=wanted.options.selvars, prelim_options=PrelimOptions.from_options(wanted.options))
    else:
        base.run_until_stage(PreprocessingStage)
        wanted.run_until_stage(PreprocessingStage)
        want, got = {}, {}
        want.update(wanted.run_stage(PreprocessingStage)._asdict())
        got.update(base.run_stage(PreprocessingStage, selvars_options=wanted.options.selvars)._asdict())
        want.update(wanted.run_stage(PrelimStage)._asdict())
        got.update(base.run_stage(PrelimStage, selvars_options=wanted.options.selvars, prelim_options=PrelimOptions.from_options(wanted.options))._asdict())
    diff = pl.unlike(pl.results(want), pl.results(got))
    ctx.event("arguments")
    ctx.require(not diff, "arguments", lambda: f"arguments given for the run have no effect on {diff[:6]}")
    again = base.run_until_stage(PrelimStage)
    diff = pl.unlike(pl.results(plain), pl.results(again))
    ctx.require(not diff, "arguments-stay", lambda: f"arguments given for an earlier run still affect {diff[:6]}")
    if ctx.index % 3 == 0:
        meta = deepcopy(base.metadata)
        sp = InstanceSpace(meta, base.options, stages=[*pl.STAGES, Counting])
        try:
            m = sp.build()
        except Exception:  # noqa: BLE001  (two stages make the same value: not this check's business)
            return
        n1 = m.data.s[0] if m.data.s is not None else None
        n2 = sp.build().data.s[0]
        ctx.event("plugin")
        ctx.require(n1 != n2 and sp.model.data.s[0] == n2, "stale-model", f"building again gave the model of the build before ({n1}, {n2})")
    ctx.distinct(ctx.index)
    ctx.sample({"features": changed["selvars"]["feats"]})


main(
    "A04",
    [Family("ways", ways, 12, 400, 300.0), Family("process", processes, 8, 80, 900.0), Family("requests", requests, 24, 300, 200.0)],
    rule="random small instance spaces (40-60 instances, all stages) built at once, by iteration, in parts, stage by stage in other orders, again, in other processes with other hash seeds, random states and parallel settings; all outputs compared; distinct = stage orders and data",
    assumptions=["measures may differ by rounding (1e-9 within a process, 1e-7 between); classifiers are compared by what they predict"],
    required_events=["build", "model_field", "compared", "until", "stage", "process", "no_model", "arguments"],
)
