"""A02: a complete run delivers to every stage the right values, isolated from everyone."""

import json
import os
import subprocess
import sys
from copy import deepcopy
from typing import NamedTuple

from monitor import graphs as g
from monitor.harness import VERIF, Ctx, Family, main

from instancespace.stage_builder import StageBuilder


def gen_ok(rng, tries=40):  # noqa: ANN001, ANN201
    for _ in range(tries):
        specs, init = g.gen_specs(rng, rng.random() < 0.1)
        try:
            levels = g.ref_levels(specs, init)
        except g.RefError:
            continue
        g.make_stages(specs)
        return specs, init, levels
    return None


def ref_final(specs, init, levels):  # noqa: ANN001, ANN201
    m = g.RefRun(specs, levels)
    m.reset({k: g.value(k) for k in init})
    log = {}
    for lev in levels:
        for n in lev:
            log[n] = m.inputs_for(n, {})
            m.run(n, {})
    return m.state(), log


def dataflow(ctx: Ctx) -> None:
    for _ in range(5):
        got = gen_ok(ctx.rng)
        if got is None:
            continue
        specs, init, levels = got
        want, want_log = ref_final(specs, init, levels)
        finals = []
        for _trial in range(3):
            b = StageBuilder()
            for i in ctx.rng.permutation(len(specs)):
                b.add_stage(specs[int(i)].cls)
            r = b.build(NamedTuple("Init", list(init.items())))
            Init = NamedTuple("Init", list(init.items()))
            mine = {k: g.value(k) for k in init}
            frozen = deepcopy(mine)
            for rerun in range(2):
                g.LOG.clear()
                out = r.run_all(Init(**mine))
                got_log = dict(g.LOG)
                ctx.event("run")
                ctx.require(
                    mine == frozen,
                    "caller-data-changed",
                    f"caller's initial data changed: {mine}",
                    stages=[s.brief() for s in specs],
                )
                for n, d in want_log.items():
                    ctx.event("stage_input_compared", len(d))
                    ctx.require(
                        got_log.get(n) == d,
                        "wrong-input" if not rerun else "wrong-input-on-second-run",
                        f"{n} received {got_log.get(n)}, expected {d}",
                        stages=[s.brief() for s in specs],
                        levels=levels,
                    )
                ctx.event("final_value_compared", len(want))
                ctx.require(
                    out == want,
                    "wrong-final-data",
                    f"final data {out} expected {want}",
                    stages=[s.brief() for s in specs],
                    levels=levels,
                )
                finals.append(repr(sorted(out.items())))
        ctx.require(len(set(finals)) == 1, "final-data-not-deterministic", f"{set(finals)}")
        hostile = sum(s.hostile for s in specs)
        rewr = sum(bool(set(s.ins) & set(s.outs)) for s in specs)
        ctx.event("hostile_stage_ran", hostile)
        ctx.event("rewriting_stage_ran", rewr)
        ctx.distinct(tuple(map(len, levels)), hostile, rewr, tuple(len(s.ins) for s in specs))
        ctx.sample({"stages": [s.brief() for s in specs], "levels": levels, "final": want})


def child_main(seed: int, n: int) -> None:
    """In a fresh process: final data of n graphs, as digests."""
    import contextlib
    import io

    import numpy as np

    rng = np.random.default_rng(seed)
    res = []
    with contextlib.redirect_stdout(io.StringIO()):
        for _ in range(n):
            g._uid = iter(range(10**9))  # same names in every process
            got = gen_ok(rng)
            if got is None:
                continue
            specs, init, levels = got
            b = StageBuilder()
            for s in specs:
                b.add_stage(s.cls)
            r = b.build(NamedTuple("Init", list(init.items())))
            out = r.run_all(NamedTuple("Init", list(init.items()))(**{k: g.value(k) for k in init}))
            res.append(g.digest(sorted(out.items()), ref_final(specs, init, levels)[0] == out))
    print(json.dumps(res))


def processes(ctx: Ctx) -> None:
    """Same graphs in separate processes with different hash seeds and heap layouts."""
    seed = int(ctx.rng.integers(1 << 30))
    results = []
    for hs in ("0", "1", "12345", "random"):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        p = subprocess.run(
            [sys.executable, "-B", str(VERIF / "checks" / "A02.py"), "--child", str(seed), "60"],
            env=env, capture_output=True, text=True, timeout=120, check=False,
        )
        if p.returncode != 0:
            ctx.violation("child-failed", p.stderr[-1500:])
            return
        results.append(p.stdout.strip().splitlines()[-1])
        ctx.event("process_run")
    n = len(json.loads(results[0]))
    ctx.event("cross_process_graph", n)
    ctx.require(len(set(results)) == 1, "differs-between-processes", f"{results}")
    ctx.distinct("proc", seed, n)


if len(sys.argv) > 1 and sys.argv[1] == "--child":
    child_main(int(sys.argv[2]), int(sys.argv[3]))
    sys.exit(0)

main(
    "A02",
    [
        Family("dataflow", dataflow, 500, 15000),
        Family("processes", processes, 3, 20),
    ],
    rule="random resolvable stage graphs with symbolic (provenance-digest) values and stages that overwrite "
    "their inputs in place; three add orders x two complete runs each, and four processes with different "
    "hash seeds; distinct = (level sizes, hostile stages, rewriting stages, arities)",
    assumptions=["stage outputs are pure functions of their inputs (the generated stages are)"],
    required_events=["stage_input_compared", "hostile_stage_ran", "rewriting_stage_ran", "cross_process_graph"],
)
