"""A08: building, loading and saving, and failing at it, leave the process as it was."""

import contextlib
import gc
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import tracemalloc
import weakref
from pathlib import Path
from typing import Any

import numpy as np
import pandas as pd

from monitor import pipeline as pl
from monitor import process as pr
from monitor.harness import PKG, VERIF, Ctx, Family, main

from instancespace.instance_space import instance_space_from_directory
from instancespace.model import Model
from instancespace.stages.sifted import NotEnoughFeatureError

SAVES = ["csv", "web", "graphs", "mat", "zip"]


@contextlib.contextmanager
def scratch() -> Any:
    d = Path(tempfile.mkdtemp(prefix="a08-"))
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def save(m: Model, kind: str, to: Path) -> None:
    to.mkdir(parents=True, exist_ok=True)
    {"csv": m.save_to_csv, "web": m.save_for_web, "graphs": m.save_graphs, "mat": m.save_to_mat, "zip": lambda d: m.save_zip("all.zip", d)}[kind](to)


def problem(rng: np.random.Generator, search: bool = True) -> dict[str, Any]:
    p = pl.problem(rng, n=40)
    p["groups"]["sifted"].update(flag=bool(rng.random() < 0.75), rho=0.05)
    p["groups"]["parallel"] = {"flag": False, "n_cores": 2}
    if rng.random() < 0.5:  # near the best one, instead of a fixed bound
        most = p["groups"]["perf"]["max_perf"]
        for eps in (0.05, 0.1, 0.2, 0.3, 0.5):
            good = p["y"] >= (1 - eps) * p["y"].max(1)[:, None] if most else p["y"] <= p["y"].min(1)[:, None] / (1 - eps)
            if min(good.sum(0).min(), (~good).sum(0).min()) > 7:
                p["groups"]["perf"].update(abs_perf=False, epsilon=eps)
                break
    if rng.random() < 0.3:
        p["groups"]["selvars"] = {"density_flag": True, "min_distance": 0.02, "selvars_type": str(rng.choice(["Ftr", "Ftr&AP", "Ftr&Good"]))}
    p["groups"]["auto"] = {"preproc": bool(rng.random() < 0.9)}
    if search and rng.random() < 0.3:
        p["groups"]["pythia"].update(params=None, use_grid_search=True)
    return p


def patient(fn: Any) -> Any:
    """Tables in which fewer than two features say anything have no space."""

    def run(ctx: Ctx) -> None:
        try:
            fn(ctx)
        except NotEnoughFeatureError:
            ctx.event("too_few_features")

    return run


def same_process(ctx: Ctx, before: dict[str, Any], key: str, what: str) -> None:
    bad = pr.changes(before, pr.snapshot())
    ctx.event("state", len(before))
    ctx.require(not bad, key, lambda: f"{what} changed the process: {bad[:4]}")


def arrays(v: Any, seen: set[int], depth: int = 0) -> list[Any]:
    """The arrays and tables inside a value."""
    if id(v) in seen or depth > 5:
        return []
    seen.add(id(v))
    if isinstance(v, (np.ndarray, pd.DataFrame, pd.Series)):
        return [v]
    if isinstance(v, dict):
        return [a for x in v.values() for a in arrays(x, seen, depth + 1)]
    if isinstance(v, (list, tuple)):
        return [a for x in v for a in arrays(x, seen, depth + 1)]
    if hasattr(v, "__dict__") and type(v).__module__.split(".")[0] in ("instancespace", "sklearn"):
        return arrays(vars(v), seen, depth + 1)
    return []


def build(ctx: Ctx) -> None:
    """A build in one of its ways, and some saves."""
    rng = ctx.rng
    p = problem(rng)
    way = str(rng.choice(["build", "build", "iter", "steps"]))
    with scratch() as d, pr.odd(rng, d):
        space = pl.space(p)
        before = pr.snapshot()
        if way == "build":
            got: Any = space.build()
        elif way == "iter":
            got = [ev.output for ev in space.run_iter()]
        else:
            got = [space.run_until_stage(pl.STAGES[-1])]
        same_process(ctx, before, f"built-{way}", f"running a space ({way})")
        ctx.event(way)
        if way == "build":
            for kind in rng.permutation(SAVES)[:3]:
                before = pr.snapshot()
                save(got, kind, d / "out")
                same_process(ctx, before, f"saved-{kind}", f"saving ({kind})")
                ctx.event(f"save_{kind}")
        # what a space made goes when the space and what it gave are let go
        mine = {id(a) for a in arrays(p, set())}
        kept = [weakref.ref(a) for a in arrays([got, space.metadata], set()) if id(a) not in mine]
        del got, space
        gc.collect()
        alive = [r() for r in kept if r() is not None]
        ctx.event("let_go", len(kept))
        ctx.require(not alive, "retained", lambda: f"{len(alive)} of {len(kept)} tables live on after the space and its results were let go: {[(type(a).__name__, getattr(a, 'shape', None)) for a in alive[:5]]}")
        ctx.distinct(way, p["groups"]["sifted"]["flag"], p["groups"]["pythia"]["params"] is None)
    ctx.sample({"way": way, "watched": sorted(before), "tables": len(kept)})


def memory(ctx: Ctx) -> None:
    """Several spaces one after the other: the arrays in use do not grow."""
    rng = ctx.rng
    p = problem(rng, search=False)
    n = len(p["x"])
    way = ["build", "iter", "save"][ctx.index % 3]
    live, per = [], []
    tracemalloc.start(1)
    try:
        with scratch() as d:
            for turn in range(4):
                order = rng.permutation(n)
                q = {**p, "x": p["x"][order] * (1 + 0.01 * rng.random(p["x"].shape)), "y": p["y"][order]}
                try:
                    space = pl.space(q)
                    if way == "iter":
                        got: Any = [ev.output for ev in space.run_iter()]
                    else:
                        got = space.build()
                        if way == "save":
                            for kind in SAVES:
                                save(got, kind, d / f"{turn}")
                            ctx.event("saved_again")
                    del got
                finally:
                    space = None
                del q, order
                gc.collect()
                now = tracemalloc.take_snapshot().filter_traces([tracemalloc.DomainFilter(True, np.lib.tracemalloc_domain)])
                live.append(sum(t.size for t in now.traces))
                per.append(now)
    finally:
        tracemalloc.stop()
    ctx.event("grown")
    grown = live[-1] - live[1]
    ctx.require(grown <= 8 * n, "memory", lambda: f"two further spaces ({way}) keep {grown} bytes of arrays ({n} instances): {[str(x) for x in per[-1].compare_to(per[1], 'lineno')[:4]]}")
    ctx.distinct(way, p["groups"]["sifted"]["flag"], p["groups"]["pilot"]["analytic"])
    ctx.sample({"bytes of arrays after each space": live})


def load(ctx: Ctx) -> None:
    """Files that can be loaded, and files that cannot."""
    rng = ctx.rng
    how = ["good", "good", "no_metadata", "no_options", "bad_csv", "bad_json", "bad_value", "bad_bytes", "empty"][ctx.index % 9]
    with scratch() as d, pr.odd(rng, d):
        n = 8
        rows = pd.DataFrame({"Instances": [f"i{j}" for j in range(n)], "Source": "s", "feature_a": rng.normal(size=n), "feature_b": rng.normal(size=n), "algo_x": rng.random(n), "algo_y": rng.random(n)})
        rows.to_csv(d / "metadata.csv", index=False)
        (d / "options.json").write_text('{"perf": {"MaxPerf": false}}')
        if how == "no_metadata":
            (d / "metadata.csv").unlink()
        elif how == "no_options":
            (d / "options.json").unlink()
        elif how == "bad_csv":
            (d / "metadata.csv").write_text('a,b\n1,2,3,4\n"x')
        elif how == "bad_json":
            (d / "options.json").write_text('{"perf": ')
        elif how == "bad_value":
            (d / "metadata.csv").write_text((d / "metadata.csv").read_text().replace("i3,s,", "i3,s,x"))
        elif how == "bad_bytes":
            (d / ("metadata.csv" if rng.random() < 0.5 else "options.json")).write_bytes(b"\xff\xfe\x00\x81" * 30)
        elif how == "empty":
            (d / ("metadata.csv" if rng.random() < 0.5 else "options.json")).write_text("")
        files = {f.name: f.read_bytes() for f in d.glob("*.*")}
        before = pr.snapshot()
        for _ in range(3):
            with contextlib.suppress(Exception):  # (what bad files do is said elsewhere)
                got = instance_space_from_directory(d)
                ctx.require((got is not None) or how != "good", "good-not-loaded", "good files were not loaded")
                del got
        gc.collect()
        same_process(ctx, before, f"loaded-{how}", f"loading ({how})")
        ctx.event(how)
        ctx.require(files == {f.name: f.read_bytes() for f in d.glob("*.*")}, "files-changed", "loading changed the files")
        ctx.distinct(how)


def fail(ctx: Ctx) -> None:
    """Broken off at some call, a build or a save leaves the process as it was, and can be made again."""
    rng = ctx.rng
    p = problem(rng, search=False)
    what = ["build", "build", *SAVES][ctx.index % 7]
    with scratch() as d, pr.odd(rng, d):
        space = pl.space(p)
        if what == "build":
            with pr.Breaker(PKG) as whole, pl.recorded() as want:
                space.build()
            do = space.build
        else:
            m = space.build()
            with pr.Breaker(PKG) as whole:
                save(m, what, d / "want")
            do = lambda: save(m, what, d / "got")  # noqa: E731
        ctx.event("calls", sum(whole.calls.values()))
        places = sorted(whole.calls)
        for _ in range(2 if what == "build" else 6):
            place = places[int(rng.integers(len(places)))]
            nth = int(rng.integers(1, whole.calls[place] + 1))
            before = pr.snapshot()
            shutil.rmtree(d / "got", ignore_errors=True)
            with pr.Breaker(PKG, place, nth) as b:
                try:
                    do()
                    came = False
                except pr.Interrupted:
                    came = True
            gc.collect()
            if b.fired is None:
                ctx.event("not_reached")
                continue
            ctx.event("broken_off")
            ctx.event(f"broken_{what}")
            ctx.require(came, "held-back", f"{what}: the interruption at call {nth} of {place} was held back")
            same_process(ctx, before, f"broken-{what}", f"{what} broken off at call {nth} of {place}")
            ctx.distinct(what, place)
        # again
        if what == "build":
            with pl.recorded() as again:
                space.build()
            bad = pl.unlike(pl.results(want), pl.results(again))
            ctx.require(not bad, "again", lambda: f"after {places} broken off, building gives something else: {bad[:5]}")
        else:
            shutil.rmtree(d / "got", ignore_errors=True)
            do()
            bad = differ(d / "want", d / "got")
            ctx.require(not bad, "again", lambda: f"saving ({what}) again gives something else: {bad[:5]}")
        ctx.event("again")


def differ(a: Path, b: Path) -> list[str]:
    na, nb = ({str(f.relative_to(x)) for f in x.rglob("*") if f.is_file()} for x in (a, b))
    if na != nb:
        return sorted(na ^ nb)
    return [n for n in sorted(na) if Path(n).suffix in (".csv", ".png") and (a / n).read_bytes() != (b / n).read_bytes()]


def apart(ctx: Ctx) -> None:
    """In a process of its own, with parallel work on."""
    rng = ctx.rng
    p = problem(rng)
    p["groups"]["parallel"] = {"flag": True, "n_cores": int(rng.integers(2, 4))}
    with scratch() as d:
        job, res = d / "job.pkl", d / "res.pkl"
        with job.open("wb") as fh:
            pickle.dump({"problem": p, "seed": int(rng.integers(1 << 30)), "dir": str(d / "w")}, fh)
        env = {**os.environ, "TMPDIR": str(d)}
        r = subprocess.run([sys.executable, "-B", "-m", "monitor.procproc", str(job), str(res)], env=env, cwd=VERIF, capture_output=True, text=True, timeout=220, check=False)
        if not ctx.require(res.exists(), "process-died", lambda: f"the process ended with {r.returncode}: {r.stderr[-800:]}"):
            return
        with res.open("rb") as fh:
            got = pickle.load(fh)
    ctx.require("error" not in got, "parallel-failed", lambda: str(got.get("error")))
    for what, n, bad in got.get("steps", []):
        ctx.event("state", n)
        ctx.event(f"apart_{what}")
        ctx.require(not bad, f"apart-{what}", lambda: f"{what} with parallel work changed the process: {bad[:4]}")
    ctx.distinct(p["groups"]["sifted"]["flag"], p["groups"]["pythia"]["params"] is None, p["groups"]["parallel"]["n_cores"])


main(
    "A08",
    [Family("build", patient(build), 24, 500, 240.0), Family("memory", patient(memory), 12, 200, 400.0), Family("load", load, 18, 90, 60.0), Family("fail", patient(fail), 28, 700, 400.0), Family("apart", apart, 3, 40, 240.0)],
    rule="random small spaces run in every way and saved in every form, good and bad files loaded, and builds and saves broken off at a random call into or out of the package, in processes with settings of their own; distinct = what was done, or the place at which it was broken off",
    assumptions=["the worker processes that joblib keeps for its next parallel run are not counted"],
    required_events=["state", "build", "iter", "steps", "let_go", "grown", "saved_again", "good", "bad_csv", "bad_json", "broken_off", "broken_build", "again", "apart_build", *[f"save_{k}" for k in SAVES]],
)
