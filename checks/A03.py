"""A03: any history of step / re-run / stop-early / iterate operations behaves as a model."""

from copy import deepcopy
from typing import NamedTuple

from monitor import graphs as g
from monitor.harness import Ctx, Family, main

from instancespace.stage_builder import StageBuilder
from instancespace.stage_runner import StageRunningError


def gen_ok(rng):  # noqa: ANN001, ANN201
    while True:
        specs, init = g.gen_specs(rng, False)
        try:
            levels = g.ref_levels(specs, init)
        except g.RefError:
            continue
        g.make_stages(specs)
        return specs, init, levels


def layered(rng):  # noqa: ANN001, ANN201
    """Several levels, most of which are shared by stages."""
    uid = next(g._uid)  # noqa: SLF001
    specs, prev = [], ["i0", "i1"]
    for lev in range(int(rng.integers(3, 6))):
        new = []
        for k in range(int(rng.integers(1, 4))):
            ins = [prev[int(rng.integers(len(prev)))]]
            if rng.random() < 0.4:
                ins.append("i0")
            if specs and rng.random() < 0.4:
                s = specs[int(rng.integers(len(specs)))]
                ins.append(s.outs[0][0])
            out = f"v{lev}_{k}"
            specs.append(g.Spec(f"L{uid}_{lev}_{k}", [(i, int) for i in dict.fromkeys(ins)], [(out, int)], hostile=rng.random() < 0.3))
            new.append(out)
        prev = new
    init = {"i0": int, "i1": int}
    levels = g.ref_levels(specs, init)
    g.make_stages(specs)
    return specs, init, levels


def history(ctx: Ctx) -> None:
    rng = ctx.rng
    waves = ctx.family == "waves"
    specs, init, levels = layered(rng) if waves else gen_ok(rng)
    names = [s.name for s in specs]
    by = {s.name: s for s in specs}
    cls2name = {s.cls: s.name for s in specs}
    b = StageBuilder()
    for s in specs:
        b.add_stage(s.cls)
    runner = b.build(NamedTuple("Init", list(init.items())))
    Init = NamedTuple("Init", list(init.items()))
    model = g.RefRun(specs, levels)
    trace: list[str] = []
    handed: list[tuple[str, dict, dict]] = []  # what was given out, and what it was then
    gen_no = 0
    held: list[tuple[dict, dict]] = []
    started = False
    kinds = set()

    def bad(key: str, msg: str) -> None:
        ctx.fatal(key, f"{msg}", history=trace, stages=[s.brief() for s in specs], levels=levels)

    def fresh_init() -> dict:
        nonlocal gen_no
        gen_no += 1
        d = {k: g.value(f"{k}#{gen_no}") for k in init}
        held.append((d, deepcopy(d)))
        return d

    def hand(what: str, out: dict) -> None:
        handed.append((what, out, deepcopy(out)))

    for _step in range(int(rng.integers(10, 30) if waves else rng.integers(3, 14))):
        op = str(rng.choice(["all", "iter", "until", "stage", "stage", "stage", "stage"]))
        if waves and started and rng.random() < 0.9:
            op = "stage"
        if op == "all":
            d = fresh_init()
            trace.append("run_all")
            out = runner.run_all(Init(**d))
            model.reset(deepcopy(d))
            for lev in levels:
                for n in lev:
                    model.run(n, {})
            started = True
            ctx.event("run_all")
            if out != model.state():
                bad("run-all-result", f"run_all gave {out}, expected {model.state()}")
            hand("run_all", out)
        elif op == "iter":
            d = fresh_init()
            k = int(rng.integers(1, len(names) + 1))
            trace.append(f"run_iter[{k}]")
            model.reset(deepcopy(d))
            it = runner.run_iter(Init(**d))
            seen = []
            for _ in range(k):
                ev = next(it)
                n = cls2name[ev.stage]
                seen.append(n)
                if not model.can_run(n) or n in model.outs:
                    bad("iter-order", f"iteration yielded {n} out of turn after {seen}")
                want = model.run(n, {})
                ctx.event("iter_yield")
                if ev.output._asdict() != want:
                    bad("iter-output", f"{n} yielded {ev.output._asdict()}, expected {want}")
            if k == len(names):
                try:
                    next(it)
                    bad("iter-extra", "iteration yields more than every stage once")
                except StopIteration as e:
                    ctx.event("iter_complete")
                    if e.value != model.state():
                        bad("iter-final", f"iteration returned {e.value}")
                    hand("run_iter", e.value)
            it.close()
            started = True
        elif op == "until":
            d = fresh_init()
            n = str(rng.choice(names))
            trace.append(f"run_until({n})")
            g.LOG.clear()
            out = runner.run_until_stage(by[n].cls, Init(**d))
            model.reset(deepcopy(d))
            for lev in levels[: model.lv[n] + 1]:
                for m in lev:
                    model.run(m, {})
            ctx.event("run_until")
            ran = [x for x, _ in g.LOG]
            want_ran = [m for lev in levels[: model.lv[n] + 1] for m in lev]
            if n not in ran:
                bad("until-excludes-stage", f"run_until({n}) ran only {ran}")
            if sorted(ran) != sorted(want_ran):
                bad("until-ran", f"run_until({n}) ran {ran}, expected {want_ran}")
            if out != model.state():
                bad("until-result", f"run_until({n}) gave {out}, expected {model.state()}")
            hand(f"run_until({n})", out)
            started = True
        else:
            n = str(rng.choice(names))
            if waves and model.cur and rng.random() < 0.85:  # near the last level that was run
                if rng.random() < 0.12:
                    ctx.event("back_to_start")
                    n = levels[0][int(rng.integers(len(levels[0])))]
                else:
                    near = levels[min(len(levels) - 1, max(0, model.cur + int(rng.choice([0, 0, 0, 1]))))]
                    n = near[int(rng.integers(len(near)))]
            if not started:  # nothing loaded yet: everything must be passed in
                n = levels[0][int(rng.integers(len(levels[0])))] if rng.random() < 0.7 else n
            over: dict = {}
            if rng.random() < 0.35 or not started:
                for v, _t in by[n].ins:
                    if rng.random() < 0.6 or not started:
                        over[v] = g.value(f"over{gen_no}-{_step}-{v}")
            over_copy = deepcopy(over)
            trace.append(f"run_stage({n}{', ' + ','.join(over) if over else ''})")
            g.LOG.clear()
            if not model.can_run(n):
                try:
                    out = runner.run_stage(by[n].cls, **over)
                except StageRunningError:
                    ctx.event("rejected_prerequisite")
                    if g.LOG:
                        bad("rejected-but-ran", f"{n} rejected yet {g.LOG} executed")
                    kinds.add("reject")
                    continue
                bad("ran-without-prerequisites", f"{n} ran before its prerequisites: {out}")
            rerun = n in model.outs
            back = model.lv[n] < model.cur
            ins = model.inputs_for(n, over)
            if ins is None:
                # legitimately missing inputs: the stage must not run
                try:
                    runner.run_stage(by[n].cls, **over)
                except Exception:  # noqa: BLE001
                    ctx.event("missing_input_error")
                    if g.LOG:
                        bad("missing-input-ran", f"{n} executed without its inputs")
                    model.rollback(model.lv[n])
                    continue
                bad("missing-input-accepted", f"{n} ran without inputs")
            if rng.random() < 0.15:
                # the stage fails, and is then run again
                g.FAULTS.clear()
                g.FAULTS[n] = 1
                try:
                    runner.run_stage(by[n].cls, **over)
                    bad("fault-swallowed", f"failure of {n} not reported")
                except g.Injected:
                    ctx.event("injected_failure")
                kinds.add("fault")
                trace.append("  (failed, retried)")
                over = deepcopy(over_copy)
                g.LOG.clear()
            out = runner.run_stage(by[n].cls, **over)
            want = model.run(n, deepcopy(over_copy))
            ctx.event("run_stage")
            if rerun:
                ctx.event("rerun_back" if back else "rerun_same")
            kinds.add(("over" if over else "plain") + ("-re" if rerun else ""))
            got_in = dict(g.LOG).get(n)
            if [x for x, _ in g.LOG] != [n]:
                bad("run-stage-ran", f"run_stage({n}) executed {[x for x, _ in g.LOG]}")
            if got_in != ins:
                bad("run-stage-input", f"{n} received {got_in}, expected {ins}")
            if out._asdict() != want:
                bad("run-stage-output", f"{n} returned {out._asdict()}, expected {want}")
            if over != over_copy:
                bad("override-changed", f"caller's override objects changed: {over}")
            started = True
        for what, obj, then in handed:
            ctx.event("handed_out_checked")
            if obj != then:
                bad("handed-out-changed", f"result of {what} changed later: {obj} was {then}")
        for d, orig in held:
            if d != orig:
                bad("initial-data-changed", f"caller's initial data changed: {d} was {orig}")
    # settle: finishing every remaining stage gives what the model gives
    if started:
        for lev in levels:
            for n in lev:
                if n not in model.outs and model.can_run(n) and model.inputs_for(n, {}) is not None:
                    out = runner.run_stage(by[n].cls)
                    if out._asdict() != model.run(n, {}):
                        bad("settle-output", f"{n} gave {out._asdict()}")
                    ctx.event("settle")
    ctx.distinct(tuple(map(len, levels)), tuple(sorted(map(str, kinds))), tuple(t.split("(")[0] for t in trace))
    ctx.sample({"history": trace, "levels": levels})


def many(ctx: Ctx) -> None:
    for _ in range(8):
        history(ctx)


main(
    "A03",
    [Family("history", many, 700, 20000), Family("waves", many, 250, 6000)],
    rule="random histories (3-30 operations: complete runs, partial iterations, stop-at-stage, single stages "
    "with and without overrides, re-runs, injected stage failures + retry) over random stage graphs (also of several levels shared by stages, going back and forward again) with "
    "symbolic values, compared step by step with an executable model; distinct = (level sizes, operation "
    "kinds, operation sequence)",
    assumptions=["after a stage fails, it is retried before anything else is asserted"],
    required_events=["run_all", "iter_complete", "run_until", "run_stage", "rejected_prerequisite",
                     "rerun_back", "rerun_same", "back_to_start", "injected_failure", "handed_out_checked"],
)
