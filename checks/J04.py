"""J04: footprints do not depend on how many threads compute them, nor on their timing."""

import random
import sys
import threading
import time

import alphashape
import numpy as np
import shapely

from monitor import trace as tr
from monitor.harness import PKG, Ctx, Family, main

REAL = alphashape.alphashape


class Delays:
    """Delays geometry calls by random amounts, and records which threads made them when."""

    def __init__(self, seed: int, longest: float) -> None:
        self.rng = np.random.default_rng(seed)
        self.longest = longest
        self.lock = threading.Lock()
        self.active, self.peak, self.calls = 0, 0, 0
        self.threads: list[int] = []

    def __call__(self, *a, **k):
        with self.lock:
            self.active += 1
            self.peak = max(self.peak, self.active)
            self.calls += 1
            wait = float(self.rng.choice([0, 0, self.longest * self.rng.random()]))
            self.threads.append(threading.get_ident())
        try:
            time.sleep(wait)
            return REAL(*a, **k)
        finally:
            with self.lock:
                self.active -= 1


class Preempt:
    """Makes worker threads pause between any two bytecodes of the code under test."""

    def __init__(self, seed: int, rate: float, longest: float) -> None:
        self.seed, self.rate, self.longest = seed, rate, longest
        self.local = threading.local()
        self.lock = threading.Lock()
        self.pauses, self.steps = 0, 0
        self.where: set[tuple[str, int]] = set()

    def __call__(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PKG):
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        if not hasattr(self.local, "next"):
            with self.lock:
                self.seed += 1
                self.local.rng = random.Random(self.seed)
            self.local.next = self.local.rng.expovariate(self.rate)
        return self.step

    def step(self, frame, event, arg):
        if event == "opcode":
            t = self.local
            t.next -= 1
            if t.next < 0:
                t.next = t.rng.expovariate(self.rate)
                with self.lock:
                    self.pauses += 1
                    self.where.add((frame.f_code.co_name, frame.f_lasti))
                time.sleep(t.rng.choice([0, t.rng.random() * self.longest]))
        return self.step


def same_footprint(f, g) -> bool:
    if (f.area, f.elements, f.good_elements, f.density, f.purity) != (g.area, g.elements, g.good_elements, g.density, g.purity):
        return False
    return (f.polygon is None and g.polygon is None) or bool(shapely.equals_exact(f.polygon, g.polygon, 0))


def case(ctx: Ctx) -> None:
    rng = ctx.rng
    many = ctx.index % 6 == 5
    ctx.event("many_algorithms", int(many))
    q = tr.problem(rng, a=int(rng.integers(10, 15) if many else rng.integers(2, 7)))
    if ctx.family == "preempt":  # more time is spent on which instances belong to whom
        q["z"], q["y_bin"], q["p"], q["beta"] = (np.concatenate([q[k]] * 4) for k in ("z", "y_bin", "p", "beta"))
        r = rng.permutation(len(q["p"]))
        q["z"], q["y_bin"], q["p"], q["beta"] = q["z"][r], q["y_bin"][r], q["p"][r], q["beta"][r]
    want = tr.run(q, cores=1)
    orders = set()
    old = sys.getswitchinterval()
    for trial in range(3 if ctx.tier == "quick" else 10):
        cores = int(rng.integers(2, 9))
        delays = Delays(int(rng.integers(1 << 30)), 0.02)
        stop = Preempt(int(rng.integers(1 << 30)), float(rng.choice([2e-4, 1e-3])), 0.01)
        if ctx.family == "preempt":
            threading.settrace(stop)
        else:
            alphashape.alphashape = delays
        sys.setswitchinterval(1e-6 if trial % 2 else 1e-4)
        try:
            out = tr.run(q, cores=cores, flag=bool(rng.random() < 0.5))
        finally:
            threading.settrace(None)
            alphashape.alphashape = REAL
            sys.setswitchinterval(old)
        first: dict[int, int] = {}
        orders.add(tuple(first.setdefault(t, len(first)) for t in delays.threads))
        ctx.event("run")
        if ctx.family == "preempt":
            ctx.event("pause", stop.pauses)
            for w in stop.where:
                ctx.distinct(w)
        else:
            ctx.event("delayed_call", delays.calls)
            ctx.event("overlapping_calls" if delays.peak > 1 else "serial_calls")
        for what, f, _ in tr.parts(out, q):
            g = next(x for w, x, _ in tr.parts(want, q) if w == what)
            ctx.event("compared_footprint")
            ctx.require(same_footprint(f, g), "differs", lambda: f"{what}: area {f.area} with {cores} threads, {g.area} with one")
        ctx.require(out.trace_summary.equals(want.trace_summary), "summary-differs", "the summary differs")
    for o in orders:
        ctx.distinct(o, q["y_bin"].shape)
    ctx.sample({"algorithms": q["y_bin"].shape[1], "interleavings": [list(o)[:40] for o in list(orders)[:2]]})


main(
    "J04",
    [Family("threads", case, 40, 800, 240.0), Family("preempt", case, 24, 500, 240.0)],
    rule="random instances (as J01) with 2-14 algorithms, each run with one thread and several times with 2-8, random delays in the geometry calls or "
    "pauses between any two bytecodes of the package, and a short switch interval; distinct = observed orders in which threads made geometry calls, and places of pauses",
    assumptions=["geometry calls are where threads spend their time"],
    required_events=["run", "compared_footprint", "many_algorithms"],
)
