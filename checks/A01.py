"""A01: stage resolution yields a valid order, or a resolution error, for any stage set."""

from typing import NamedTuple

from monitor import graphs as g
from monitor.harness import Ctx, Family, main

from instancespace.stage_builder import StageBuilder, StageResolutionError
import instancespace.stage_runner as stage_runner
from instancespace.stage_runner import StageRunningError


def build(specs, init, order):  # noqa: ANN001, ANN201
    b = StageBuilder()
    for i in order:
        b.add_stage(specs[i].cls)
    return b.build(NamedTuple("Init", list(init.items())))


def observe(runner, init, specs):  # noqa: ANN001, ANN201
    """The observed execution order, through the public iterator."""
    g.LOG.clear()
    args = NamedTuple("Init", list(init.items()))(**{k: g.value(k) for k in init})
    names = {s.cls: s.name for s in specs}
    seen = [names[ev.stage] for ev in runner.run_iter(args)]
    ran = [n for n, _ in g.LOG]
    return seen, ran, list(g.LOG)


def check_order(ctx: Ctx, specs, init, seen, what):  # noqa: ANN001
    """Monitor of one observed execution order against the ordering obligations."""
    by = {s.name: s for s in specs}
    pos = {n: i for i, n in enumerate(seen)}
    ctx.require(
        sorted(seen) == sorted(by),
        "not-exactly-once",
        f"{what}: executed {seen}, stages {sorted(by)}",
    )
    ctx.event("order_observed")
    for s in specs:
        for v, t in s.ins:
            ok = (v, t) in init.items() or any(
                (v, t) in p.outs and pos[p.name] < pos[s.name] for p in specs if p is not s
            )
            ctx.event("input_dependency")
            ctx.require(ok, "input-before-producer", f"{what}: {s.name} ran before any provider of {v}: {seen}")
        for b in s.before:
            if b in pos:
                ctx.event("run_before")
                ctx.require(pos[s.name] < pos[b], "run-before", f"{what}: {s.name} must precede {b}: {seen}")
        for a in s.after:
            ctx.event("run_after")
            ctx.require(a in pos and pos[a] < pos[s.name], "run-after", f"{what}: {s.name} must follow {a}: {seen}")


def random_graph(ctx: Ctx) -> None:
    wild = ctx.rng.random() < 0.35
    for _ in range(6):
        specs, init = g.gen_specs(ctx.rng, wild)
        g.make_stages(specs)
        if ctx.rng.random() < 0.06 and len(specs) > 2:
            specs = specs[:-1]  # a restriction may now name an absent stage
        try:
            levels = g.ref_levels(specs, init)
            expect = "ok"
        except g.RefError as e:
            levels, expect = None, str(e).split()[0]
        outcomes = []
        for trial in range(3):
            order = list(ctx.rng.permutation(len(specs)))
            try:
                runner = build(specs, init, order)
            except (StageResolutionError, StageRunningError) as e:
                outcomes.append("error")
                ctx.event("resolution_error")
                ctx.require(
                    levels is None,
                    "rejects-resolvable",
                    f"resolvable stages rejected: {e}",
                    stages=[s.brief() for s in specs],
                    initial=list(init),
                    expected=levels,
                )
                continue
            outcomes.append("ok")
            if levels is None:
                ctx.violation(
                    "accepts-unresolvable",
                    f"expected a resolution error ({expect}), got a runner",
                    stages=[s.brief() for s in specs],
                    initial=list(init),
                )
                continue
            try:
                seen, ran, _log = observe(runner, init, specs)
            except (KeyError, StageRunningError, TypeError) as e:
                ctx.violation(
                    "order-not-executable",
                    f"accepted order cannot be executed: {type(e).__name__} {e}",
                    stages=[s.brief() for s in specs],
                    initial=list(init),
                )
                continue
            ctx.require(seen == ran, "yield-order", f"yielded {seen}, executed {ran}")
            check_order(ctx, specs, init, seen, f"trial {trial}")
            lv = {n: i for i, lev in enumerate(levels) for n in lev}
            if sorted(lv) == sorted(seen):
                seq = [lv[n] for n in seen]
                ctx.event("level_order")
                ctx.require(
                    seq == sorted(seq),
                    "order-differs-from-reference",
                    f"{seen} is not a run of {levels}",
                    stages=[s.brief() for s in specs],
                    initial=list(init),
                )
        ctx.require(len(set(outcomes)) == 1, "depends-on-add-order", f"{outcomes}", stages=[s.brief() for s in specs])
        shape = tuple(tuple(len(x) for x in (s.ins, s.outs, s.before, s.after)) for s in specs)
        ctx.distinct(expect, levels and tuple(map(len, levels)), shape)
        ctx.event("expect_" + expect)
    ctx.sample({"stages": [s.brief() for s in specs], "initial": list(init), "levels": levels, "expect": expect})


def rebuild_same_set(ctx: Ctx) -> None:
    """Resolving must not disturb what it is given: same set, several builders."""
    specs, init = g.gen_specs(ctx.rng, False)
    g.make_stages(specs)
    try:
        levels = g.ref_levels(specs, init)
    except g.RefError:
        levels = None
    argument = getattr(stage_runner, "_StageArgument", None)
    if argument is None:  # internal name gone: the set form of build() is not reachable
        return
    given = {argument(k, t) for k, t in init.items()}
    before = set(given)
    b = StageBuilder()
    for s in specs:
        b.add_stage(s.cls)
    for attempt in range(3):
        try:
            r = b.build(given)
        except (StageResolutionError, StageRunningError):
            ctx.require(levels is None, "rebuild-rejected", f"attempt {attempt}")
            continue
        finally:
            ctx.require(given == before, "initial-inputs-changed", f"{given - before} added to caller's set")
        if not ctx.require(levels is not None, "rebuild-accepts", f"attempt {attempt} accepted unresolvable"):
            continue
        try:
            seen, _, _ = observe(r, init, specs)
        except (KeyError, StageRunningError) as e:
            ctx.violation("rebuild-broken", f"attempt {attempt}: {type(e).__name__} {e}")
            continue
        check_order(ctx, specs, init, seen, f"rebuild {attempt}")
        ctx.event("rebuild")
    # a stage cannot be added twice
    try:
        b.add_stage(specs[0].cls)
        ctx.violation("duplicate-accepted", "the same stage was accepted twice")
    except ValueError:
        ctx.event("duplicate_rejected")
    ctx.distinct("rebuild", levels and tuple(map(len, levels)), len(specs))


def restriction_as_output(ctx: Ctx) -> None:
    from instancespace.stages.stage import RunAfter, RunBefore

    specs, init = g.gen_specs(ctx.rng, False)
    g.make_stages(specs)
    kind = RunBefore if ctx.rng.random() < 0.5 else RunAfter
    s = specs[0]
    s._holder["out"] = NamedTuple("BadOut", [*s.outs, ("r", kind[specs[-1].cls])])
    try:
        StageBuilder().add_stage(s.cls)
        ctx.violation("restriction-output-accepted", f"{kind.__name__} accepted as an output")
    except TypeError:
        ctx.event("restriction_output_rejected")
    ctx.distinct("bad-out", kind.__name__)


main(
    "A01",
    [
        Family("graph", random_graph, 700, 20000),
        Family("rebuild", rebuild_same_set, 250, 5000),
        Family("badout", restriction_as_output, 20, 200),
    ],
    rule="random stage graphs (2-7 stages, random inputs/outputs/types, in-place rewriters, RunBefore/"
    "RunAfter restrictions, absent stages, type mismatches), each added in 3 orders; distinct = "
    "(reference outcome, level sizes, per-stage arity) classes",
    assumptions=["a value name carries one type per graph apart from injected reader mismatches"],
    required_events=["order_observed", "run_before", "run_after", "resolution_error", "expect_ok",
                     "expect_ambiguous", "expect_unsatisfiable:"],
)
