"""A07: plugins (stages added to, or put in the place of, those of a space) take part as documented."""

from copy import deepcopy
from typing import Any, NamedTuple

import numpy as np
import pandas as pd

from monitor import pipeline as pl
from monitor.harness import Ctx, Family, main

from instancespace.data.options import PrelimOptions
from instancespace.instance_space import InstanceSpace, _InstanceSpaceInputs
from instancespace.model import Model
from instancespace.stages.stage import RunAfter, RunBefore, Stage

PRE, PREL, SIF, PIL, PYT, CLO, TRA = pl.STAGES
FIRST = _InstanceSpaceInputs
MADE = {st: st._outputs().__annotations__ for st in pl.STAGES}  # noqa: SLF001


def kind(name: str, of: Any) -> Any:
    return (FIRST.__annotations__ if of is None else MADE[of])[name]


class Trace:
    """What every stage received and gave, in the order in which they ran."""

    def __init__(self) -> None:
        self.calls: list[tuple] = []

    def around(self, st: Any, real: Any) -> Any:
        def run(inputs: Any) -> Any:
            seen = deepcopy(inputs._asdict())
            out = real(inputs)
            self.calls.append((st, seen, deepcopy(out._asdict())))
            return out

        return staticmethod(run)


def plugin(name: str, reads: list[tuple], gives: list[tuple], work: Any, trace: Trace, after: list = (), before: list = (), base: Any = Stage) -> Any:
    """A stage class."""
    fields = [(n, t) for n, t in reads]
    fields += [(f"after{i}", RunAfter[s]) for i, s in enumerate(after)] + [(f"before{i}", RunBefore[s]) for i, s in enumerate(before)]
    ins, outs = NamedTuple(f"{name}Input", fields), NamedTuple(f"{name}Output", [(n, t) for n, t in gives])
    cls = type(name, (base,), {"_inputs": staticmethod(lambda: ins), "_outputs": staticmethod(lambda: outs)})
    cls.work = staticmethod(work)
    cls._run = trace.around(cls, lambda v: outs(**work(v)))
    return cls


def edited(rng: np.random.Generator, p: dict[str, Any]) -> tuple[dict[str, Any], Any]:
    """Other options of one group: (all of them as options, the name of the input that changes)."""
    g = {k: dict(v) for k, v in p["groups"].items()}
    which = str(rng.choice(["perf", "sifted", "pilot", "pythia", "trace", "cloister"]))
    if which == "perf":
        g["perf"]["max_perf"] = not g["perf"]["max_perf"]
    elif which == "sifted":
        g["sifted"]["flag"] = not g["sifted"]["flag"]
    elif which == "pilot":
        g["pilot"]["analytic"] = not g["pilot"]["analytic"]
    elif which == "pythia":
        g["pythia"]["use_weights"] = not g["pythia"]["use_weights"]
    elif which == "trace":
        g["trace"]["use_sim"] = not g["trace"]["use_sim"]
    else:
        g["cloister"] = {"p_val": 0.9, "c_thres": 0.05}
    return g, {"perf": "prelim_options"}.get(which, f"{which}_options")


def scribble(v: Any) -> None:
    """Overwrites what a plugin was given."""
    for x in v:
        if isinstance(x, np.ndarray) and x.size and x.dtype != object:
            x[...] = 0
        elif isinstance(x, (list, dict)):
            scribble(x.values() if isinstance(x, dict) else x)
            x.clear()
        elif isinstance(x, pd.DataFrame) and len(x):
            x.iloc[:, :] = None
        elif isinstance(x, pd.Series) and len(x):
            x.iloc[:] = None
        elif hasattr(x, "__dataclass_fields__"):
            scribble([getattr(x, f) for f in x.__dataclass_fields__])


def case(ctx: Ctx) -> None:
    rng = ctx.rng
    p = pl.problem(rng, n=int(rng.integers(40, 60)))
    if rng.random() < 0.5:  # (lists among the options)
        p["groups"]["selvars"] = {"feats": p["features"][: max(3, len(p["features"]) - 1)]}
    plain = pl.space(p)
    as_given = deepcopy((plain.metadata, plain.options))
    trace = Trace()
    plan: dict[Any, list] = {st: [] for st in [None, *pl.STAGES]}  # after which stage each plugin takes effect
    kinds = list(rng.choice(["options", "data", "x", "z", "labels", "summary", "new", "extra"], size=int(rng.integers(1, 4)), replace=False))
    groups = p["groups"]
    extra_type, extra = None, {}
    new: list = []
    for what in kinds:
        if what == "options":
            groups, field = edited(rng, p)
            other = pl.space({**p, "groups": groups})
            value = PrelimOptions.from_options(other.options) if field == "prelim_options" else getattr(other.options, field.removesuffix("_options"))
            t = [(field, kind(field, None))]
            plan[None].append(plugin("Chooses", t, t, lambda v, f=field, o=value: {f: o}, trace))
        elif what == "data":
            f = float(rng.choice([2.0, 0.5]))
            t = [("features", kind("features", None))]
            plan[None].append(plugin("Halves", t, t, lambda v, f=f: {"features": v.features * f}, trace))
        elif what == "x":
            t = [("x", kind("x", PREL))]
            plan[PREL].append(plugin("Centres", t, t, lambda v: {"x": v.x - np.nanmedian(v.x, axis=0)}, trace, after=[PREL], before=[SIF]))
        elif what == "z":
            t = [("z", kind("z", PIL))]
            f = float(rng.choice([1.5, -1.0]))
            plan[PIL].append(plugin("Stretches", t, t, lambda v, f=f: {"z": v.z * f}, trace))
        elif what == "labels":
            t = [("y_hat", kind("y_hat", PYT))]
            plan[PYT].append(plugin("Relabels", t, t, lambda v: {"y_hat": ~np.asarray(v.y_hat, dtype=bool)}, trace))
        elif what == "summary":
            t = [("trace_summary", kind("trace_summary", TRA))]
            plan[TRA].append(plugin("Notes", t, t, lambda v: {"trace_summary": v.trace_summary.iloc[::-1]}, trace))
        elif what == "new":  # one plugin's value is another's
            a = plugin("Makes", [("z", kind("z", PIL))], [("made", float)], lambda v: {"made": float(np.abs(v.z).sum())}, trace, after=[s for s in plan[PIL]])
            b = plugin("Takes", [("made", float), ("algo_labels", kind("algo_labels", PRE))], [("taken", str)],
                       lambda v: {"taken": f"{v.made:.6g} {'/'.join(v.algo_labels)}"}, trace)
            new = [a, b]
        else:
            extra_type = NamedTuple("Extra", [("weight", float), ("wish", dict)])
            extra = {"weight": float(rng.choice([2.0, 0.0])), "wish": {"a": [1, 2]}}
            t = [("y_raw", kind("y_raw", SIF))]
            plan[SIF].append(plugin("Weighs", [*t, ("weight", float), ("wish", dict)], t, lambda v: {"y_raw": v.y_raw * (len(v.wish["a"]) - 1 + v.weight), **dict(v.wish["a"].append(1) or {})}, trace, after=[SIF]))
    # what is made by the plugins that follow the projection comes after the changes to it
    if new and plan[PIL] and new[0]._inputs().__annotations__.get("after0") is None:  # noqa: SLF001
        new[0] = plugin("Makes", [("z", kind("z", PIL))], [("made", float)], new[0].work, trace, after=plan[PIL])
    touched = {f for ps in plan.values() for q in ps for f in q._outputs()._fields}  # noqa: SLF001
    watchers = []
    for i in range(int(rng.integers(0, 3))):
        src = None if rng.random() < 0.4 else pl.STAGES[int(rng.integers(7))]
        names = list(FIRST.__annotations__ if src is None else MADE[src])
        chosen = list(rng.choice(names, size=min(len(names), int(rng.integers(1, 7))), replace=False))
        rude = bool(rng.random() < 0.6)
        after = [src] if src is not None and rng.random() < 0.7 else []
        after += [st for st in pl.STAGES if st is not src and rng.random() < 0.25]
        before = []
        if src is None and not set(chosen) & touched:  # (what waits for it must not let others overtake: family waiting)
            before = [st for st in (PYT, CLO, TRA) if st not in after and rng.random() < 0.3]
            after = [] if before else after

        def look(v: Any, rude: bool = rude, i: int = i) -> dict:
            if rude:
                scribble([x for k, x in v._asdict().items() if not k.startswith("after")])
            return {f"seen{i}": "yes"}

        watchers.append(plugin(f"Looks{i}", [(n, kind(n, src)) for n in chosen], [(f"seen{i}", str)], look, trace, after=after, before=before))
    stages = list(pl.STAGES)
    if rng.random() < 0.3:  # a stage of their own in the place of one of the space's
        k = int(rng.integers(3, 6))
        was = stages[k]
        own = type("Own" + was.__name__, (was,), {})
        own.work = staticmethod(was.__dict__["_run"].__func__)
        own._run = trace.around(own, own.work)
        stages[k] = own
        for st in plan:
            plan[st] = list(plan[st])
        plan[own] = plan.pop(was)
        ctx.event("replaced")
    order = [*plan[None]]
    for st in stages:
        order += [st, *plan[st]]
        if new and st is stages[-1]:
            order += new
    if any(was in (PIL, PYT, CLO) and was not in stages for was in pl.STAGES):
        watchers = [w for w in watchers if not any(k.startswith(("after", "before")) for k in w._inputs()._fields)]  # noqa: SLF001
    listed = [*order, *watchers]
    listed = [listed[i] for i in rng.permutation(len(listed))]

    # the reference: one after the other
    state: dict[str, Any] = {**FIRST.from_metadata_and_options(plain.metadata, plain.options)._asdict(), **extra}
    own_run = {st: st.__dict__["_run"] for st in pl.STAGES}
    for st in order:
        ins = st._inputs()  # noqa: SLF001
        given = ins(**{k: deepcopy(state.get(k)) for k in ins._fields})
        got = own_run[st].__func__(given)._asdict() if st in own_run else st.work(given)
        state.update(got if isinstance(got, dict) else got._asdict())
        if st is SIF:
            good = state["y_bin"].sum(axis=0)
            if min(good.min(), len(state["y_bin"]) - good.max()) < 4:
                ctx.event("one_sided")
                return
    trace.calls.clear()

    try:
        space = InstanceSpace(plain.metadata, plain.options, stages=listed, **({"additional_initial_inputs_type": extra_type} if extra_type else {}))
        can = _order(space, listed, extra) if rng.random() < 0.5 or extra_type else _order(InstanceSpace(plain.metadata, plain.options, stages=listed), listed, {})
        for st, f in own_run.items():
            st._run = trace.around(st, f.__func__)
        model, final = None, {}
        way = str(rng.choice(["until", "until", "steps"])) if extra_type else str(rng.choice(["build", "build", "iter", "steps"]))
        if way == "build":
            model = space.build()
        elif way == "iter":
            for ev in space.run_iter():
                final.update(ev.output._asdict())
        elif way == "until":
            for st in stages[3:] if rng.random() < 0.5 else []:  # (any history)
                space.run_until_stage(st, **extra)
                trace.calls.clear()
                break
            final = space.run_until_stage(can[-1], **extra)
        else:
            first = [s for s in listed if s in plan[None]] or [PRE]
            space.run_until_stage(first[0], **extra)
            trace.calls.clear()
            for st in can if set(can) == set(listed) else _order(space, listed, extra):
                final.update(space.run_stage(st, **{k: v for k, v in extra.items() if k in st._inputs()._fields})._asdict())  # noqa: SLF001
    finally:
        for st, f in own_run.items():
            st._run = f
    ctx.event(way)
    for k in kinds:
        ctx.event(f"plugin_{k}")

    # every stage ran once, each got what was last produced
    ran = [c[0] for c in trace.calls]
    ctx.require(sorted(s.__name__ for s in ran) == sorted(s.__name__ for s in listed), "ran", lambda: f"ran {[s.__name__ for s in ran]}, listed {[s.__name__ for s in listed]}")
    now: dict[str, Any] = {**FIRST.from_metadata_and_options(plain.metadata, plain.options)._asdict(), **extra}
    for st, seen, out in trace.calls:
        for k, v in seen.items():
            if k.startswith(("after", "before")):
                continue
            bad = pl.unlike({k: now[k]}, {k: v}, tol=1e-12)
            ctx.event("input")
            ctx.require(not bad, "input", lambda: f"{st.__name__} was not given the latest {k}: {bad[:3]}")
        now.update(out)
    place = {s: i for i, s in enumerate(ran)}
    for a, st in enumerate(order):
        for b in order[a + 1 :]:
            if set(b._inputs()._fields) & set(st._outputs()._fields):  # noqa: SLF001
                ctx.require(place[st] < place[b], "order", lambda: f"{b.__name__} ran before {st.__name__}, which changes what it reads")
    for w in watchers:
        for k, t in w._inputs().__annotations__.items():  # noqa: SLF001
            if k.startswith("after"):
                ctx.require(place[t.__args__[0]] < place[w], "after", lambda: f"{w.__name__} did not run after {t}")
            if k.startswith("before"):
                ctx.require(place[t.__args__[0]] > place[w], "before", lambda: f"{w.__name__} did not run before {t}")
    ctx.event("watched", len(watchers))

    # and everything is as from the steps one after the other
    if model is None:
        want = {k: state[k] for st in order for k in st._outputs()._fields if k not in ("svm", "cp")}  # noqa: SLF001
        bad = pl.unlike(want, {k: final.get(k) for k in want})
        ctx.require(not bad, "values", lambda: f"{way}: values are not those of the stages and plugins {[s.__name__ for s in order]}: {bad[:5]}")
    else:
        bad = pl.unlike(Model.from_stage_runner_output(state, plain.options), model)
        ctx.require(not bad, "model", lambda: f"the model is not that of the stages and plugins {[s.__name__ for s in order]}: {bad[:5]}")
    if kinds == ["options"]:
        other = pl.space({**p, "groups": groups}).build()
        bad = [b for f in ("data", "feat_sel", "pilot", "cloister", "trace") for b in pl.unlike(getattr(other, f), model.__getattribute__(f) if model else getattr(Model.from_stage_runner_output(state, plain.options), f), f)]
        ctx.event("as_options")
        ctx.require(not bad, "as-options", lambda: f"a plugin that sets {groups} differs from the option: {bad[:5]}")
    bad = pl.unlike(list(as_given), [plain.metadata, plain.options])
    ctx.require(not bad, "given-changed", lambda: f"running the space changed its metadata or options: {bad[:5]}")
    ctx.distinct(tuple(kinds), way, tuple(s.__name__ for s in listed))
    ctx.sample({"stages": [s.__name__ for s in listed], "ran": [s.__name__ for s in ran], "way": way})


def waiting(ctx: Ctx) -> None:
    """A plugin between labelling and feature selection: the projection still waits for the selected features."""
    rng = ctx.rng
    p = pl.problem(rng, n=45)
    trace = Trace()
    field = str(rng.choice(["y_raw", "beta", "num_good_algos", "y_best"]))
    t = [(field, kind(field, PREL))]
    between = plugin("Between", t, t, lambda v: {field: getattr(v, field)}, trace, after=[PREL], before=[SIF])
    own_run = {st: st.__dict__["_run"] for st in pl.STAGES}
    try:
        for st in pl.STAGES:
            st._run = trace.around(st, lambda v, st=st: st._outputs()(**dict.fromkeys(st._outputs()._fields)))  # noqa: SLF001
        pl.space(p, [*pl.STAGES, between]).run_until_stage(TRA)
    finally:
        for st, f in own_run.items():
            st._run = f
    ran = [c[0] for c in trace.calls]
    ctx.event("waited")
    ctx.require(ran.index(PREL) < ran.index(between) < ran.index(SIF), "between", lambda: f"the plugin did not run between: {[s.__name__ for s in ran]}")
    ctx.require(ran.index(SIF) < ran.index(PIL), "projection-overtakes-selection",
                lambda: f"with a plugin that changes {field} before feature selection, the projection runs before the selection: {[s.__name__ for s in ran]}")
    ctx.distinct(field)


def _order(space: InstanceSpace, listed: list, extra: dict) -> list:
    """An order in which the stages of a space can be run: seen by running it with stages that do nothing."""
    own = {st: st.__dict__["_run"] for st in listed}
    best: list = []
    try:
        for target in listed:
            ran: list = []
            for st in listed:
                st._run = staticmethod(lambda v, st=st, ran=ran: (ran.append(st), st._outputs()(**dict.fromkeys(st._outputs()._fields)))[1])
            space.run_until_stage(target, **extra)
            best = max(best, ran, key=len)
    finally:
        for st, f in own.items():
            st._run = f
    return best


main(
    "A07",
    [Family("plugins", case, 64, 1200, 240.0), Family("waiting", waiting, 6, 12, 60.0)],
    rule="random small spaces with one to three plugins that change options, data, features, coordinates, predictions or summaries, add values or need initial values of their own, observers that overwrite "
    "what they read, and stages put in the place of the space's; listed in any order and run in any way; distinct = plugins, way and listing",
    assumptions=["the reference runs the same stages one after the other"],
    required_events=["waited", "input", "build", "iter", "steps", "until", "watched", "replaced", "as_options", *[f"plugin_{k}" for k in ("options", "data", "x", "z", "labels", "summary", "new", "extra")]],
)
