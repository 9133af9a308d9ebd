"""A05: instance spaces built at the same time do not affect each other."""

import sys
import tempfile
import os
import threading
from pathlib import Path

import numpy as np

from monitor import model as mm
from monitor import pipeline as pl
from monitor.harness import Ctx, Family, main

from instancespace.stages.sifted import NotEnoughFeatureError


def collect(s, step=lambda: None) -> dict:  # noqa: ANN001
    out: dict = {}
    for ev in s.run_iter():
        out.update(ev.output._asdict())
        step()
    return pl.results(out)


def problems(ctx: Ctx, count: int, sifted: bool | None = None, searched: bool = False) -> list[dict]:
    rng = ctx.rng
    res = []
    for _ in range(count):
        p = pl.problem(rng)
        if sifted is not None:
            p["groups"]["sifted"]["flag"] = sifted
        if searched and rng.random() < 0.4:  # parameters of the classifiers searched
            for f in ("x", "y", "labels", "sources", "index"):
                p[f] = None if p[f] is None else p[f][:40]
            p["groups"]["pythia"] |= {"params": None, "use_grid_search": True}
            ctx.event("searched")
        res.append(p)
    if rng.random() < 0.4:  # the same table with other options
        res[-1] = {**res[0], "groups": {**res[0]["groups"], "norm": {"flag": not res[0]["groups"]["norm"]["flag"]}, "bound": {"flag": not res[0]["groups"]["bound"]["flag"]}}}
        ctx.event("same_table")
    return res


def together(ctx: Ctx, ps: list[dict]) -> list[dict]:
    """What each gives alone; those that cannot be built are left out."""
    res = []
    for p in list(ps):
        try:
            res.append(collect(pl.space(p)))
        except NotEnoughFeatureError:
            ps[:] = [q for q in ps if q is not p]
            ctx.event("not_enough_features")
    return res


def shared(p: dict, spaces: dict) -> object:
    """Spaces of the same metadata object, when they are of the same table."""
    s = pl.space(p)
    twin = spaces.get(id(p["x"]))
    if twin is None:
        spaces[id(p["x"])] = s.metadata
        return s
    return pl.InstanceSpace(twin, s.options)


def interleaved(ctx: Ctx) -> None:
    rng = ctx.rng
    ps = problems(ctx, int(rng.integers(2, 4)))
    alone = together(ctx, ps)
    if not ps:
        return
    metas: dict = {}
    spaces = [shared(p, metas) for p in ps]
    given = [mm.freeze((s.metadata, s.options)) for s in spaces]
    its = [s.run_iter() for s in spaces]
    got: list[dict] = [{} for _ in ps]
    live = list(range(len(ps)))
    turns = []
    while live:
        i = int(rng.choice(live))
        try:
            ev = next(its[i])
        except StopIteration:
            live.remove(i)
            continue
        turns.append(i)
        ctx.event("stage")
        got[i].update(ev.output._asdict())
    ctx.event("switch", int((np.diff(turns) != 0).sum()))
    for i in range(len(ps)):
        diff = pl.unlike(alone[i], pl.results(got[i]), tol=1e-9)
        ctx.event("compared")
        ctx.require(not diff, "interleaved", lambda: f"space {i} built in turns {turns} has other {diff[:6]} (of {len(diff)}) than alone")
        ctx.require(mm.freeze((spaces[i].metadata, spaces[i].options)) == given[i], "given", "building in turns changed the metadata or options")
    ctx.distinct(tuple(turns), ctx.index)
    ctx.sample({"turns": turns})


def threads(ctx: Ctx) -> None:
    rng = ctx.rng
    ps = problems(ctx, int(rng.integers(2, 5)), sifted=bool(ctx.index % 2), searched=True)
    alone = together(ctx, ps)
    if not ps:
        return
    metas: dict = {}
    spaces = [shared(p, metas) for p in ps]
    got: list = [None] * len(ps)
    gate = threading.Barrier(len(ps))
    stages: list = []

    def work(i: int) -> None:
        try:
            gate.wait()
            out: dict = {}
            for ev in spaces[i].run_iter():
                stages.append(i)
                out.update(ev.output._asdict())
            got[i] = pl.results(out)
        except BaseException as e:  # noqa: BLE001
            got[i] = e

    was = sys.getswitchinterval()
    sys.setswitchinterval(float(rng.choice([1e-6, 1e-5, 1e-4, 1e-3])))
    try:
        ts = [threading.Thread(target=work, args=(i,)) for i in range(len(ps))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(was)
    ctx.event("thread", len(ps))
    ctx.event("switch", int((np.diff(stages) != 0).sum()))
    for i, g in enumerate(got):
        ctx.event("compared")
        if isinstance(g, BaseException):
            ctx.violation("threads", f"space {i} of {len(ps)} built in threads: {type(g).__name__}: {g}")
            continue
        diff = pl.unlike(alone[i], g, tol=1e-9)
        key = "threads-selection" if ps[i]["groups"]["sifted"]["flag"] and diff and any("clust" in d or "x:" in d for d in diff) else "threads"
        ctx.require(not diff, key, lambda: f"space {i} of {len(ps)} built in threads has other {diff[:6]} (of {len(diff)}) than alone")
    ctx.distinct("threads", tuple(stages), ctx.index)
    ctx.sample({"spaces": len(ps), "stages": stages})


def saving(ctx: Ctx) -> None:
    """Tables of several models written at the same time."""
    rng = ctx.rng
    ms = [pl.space(p).build() for p in problems(ctx, 2, sifted=False)]
    with tempfile.TemporaryDirectory(dir=os.environ.get("ISA_SCRATCH")) as tmp:
        t = Path(tmp)

        def write(i: int, base: Path) -> None:
            base.mkdir(parents=True)
            ms[i].save_to_csv(base)
            (base / "web").mkdir()
            ms[i].save_for_web(base / "web")

        for i in range(len(ms)):
            write(i, t / f"alone{i}")
        errs: list = []

        def work(i: int) -> None:
            try:
                write(i, t / f"both{i}")
            except BaseException as e:  # noqa: BLE001
                errs.append(e)

        was = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            ts = [threading.Thread(target=work, args=(i,)) for i in range(len(ms))]
            for th in ts:
                th.start()
            for th in ts:
                th.join()
        finally:
            sys.setswitchinterval(was)
        ctx.require(not errs, "saving", lambda: f"saving two models at the same time: {errs[0]!r}")
        for i in range(len(ms)):
            a, b = ({f.relative_to(r).as_posix(): f.read_bytes() for f in sorted(r.rglob("*")) if f.is_file()} for r in (t / f"alone{i}", t / f"both{i}"))
            ctx.event("file", len(a))
            if not errs:
                ctx.require(set(a) == set(b), "saving", lambda: f"other files: {set(a) ^ set(b)}")
                for f in a:
                    ctx.require(a[f] == b.get(f), "saving", lambda: f"{f} differs when two models are saved at the same time")
    ctx.distinct("saving", ctx.index)


main(
    "A05",
    [Family("interleaved", interleaved, 16, 400, 300.0), Family("threads", threads, 24, 400, 900.0), Family("saving", saving, 12, 300, 100.0)],
    rule="two to four small spaces, some of one and the same metadata object, built by turns stage by stage in one thread, or each in its own thread with very short thread switching; "
    "every output compared with that of the space built alone; distinct = data and order of stages observed",
    assumptions=["graphs are not drawn at the same time (matplotlib's current figure belongs to the process)"],
    required_events=["stage", "switch", "thread", "compared", "same_table", "searched", "file"],
)
