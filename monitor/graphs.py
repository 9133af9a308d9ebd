"""Random stage graphs with symbolic values, and an executable reference for them.

Every generated stage computes, for each of its outputs, a symbolic value that is a digest
of (stage, output, every declared input it was given), so the final data of a run encodes
exactly which value reached which stage.  Stages may be hostile: they may overwrite the
objects they are given.
"""

from __future__ import annotations

import hashlib
import itertools
from copy import deepcopy
from typing import Any, NamedTuple

from instancespace.stages.stage import RunAfter, RunBefore, Stage

TYPES = [int, str, float, list, dict]
LOG: list[tuple[str, dict[str, Any]]] = []
FAULTS: dict[str, int] = {}
_uid = itertools.count()


class Injected(Exception):
    pass


def digest(*parts: Any) -> str:
    return hashlib.blake2b(repr(parts).encode(), digest_size=6).hexdigest()


def value(tag: str) -> Any:
    """A mutable symbolic value, or now and then one that counts as false."""
    nothing = int(digest(tag)[:3], 16)
    if nothing < 330:
        return [None, None, 0, "", [], {}, False, 0.0][nothing % 8]
    return ["v", tag, {"k": [tag]}]


def sym_outputs(name: str, outs: list[str], ins: dict[str, Any]) -> dict[str, Any]:
    return {o: value(digest(name, o, sorted((k, repr(v)) for k, v in ins.items()))) for o in outs}


class Spec:
    """One generated stage."""

    def __init__(self, name, ins, outs, before=(), after=(), hostile=False, alias=False):  # noqa: ANN001
        self.name = name
        self.ins: list[tuple[str, type]] = ins
        self.outs: list[tuple[str, type]] = outs
        self.before: list[str] = list(before)
        self.after: list[str] = list(after)
        self.hostile = hostile
        self.alias = alias
        self.cls: Any = None

    def brief(self) -> dict[str, Any]:
        return {
            "stage": self.name,
            "in": [f"{n}:{t.__name__}" for n, t in self.ins],
            "out": [f"{n}:{t.__name__}" for n, t in self.outs],
            "before": self.before,
            "after": self.after,
            "hostile": self.hostile,
        }


def make_class(spec: Spec) -> type:
    spec_name = spec.name
    out_names = [n for n, _ in spec.outs]
    hostile = spec.hostile
    holder: dict[str, Any] = {}

    class G(Stage):
        @staticmethod
        def _inputs():  # noqa: ANN205
            return holder["in"]

        @staticmethod
        def _outputs():  # noqa: ANN205
            return holder["out"]

        @staticmethod
        def _run(inputs):  # noqa: ANN001, ANN205
            d = {k: v for k, v in inputs._asdict().items() if k in holder["data"]}
            LOG.append((spec_name, deepcopy(d)))
            outs = sym_outputs(spec_name, out_names, d)
            if hostile:
                for v in d.values():
                    if isinstance(v, list):
                        v.append("SCRIBBLED-BY-" + spec_name)
                        v[0] = "X"
                    elif isinstance(v, dict):
                        v["SCRIBBLED-BY"] = spec_name
            if FAULTS.get(spec_name, 0) > 0:
                FAULTS[spec_name] -= 1
                raise Injected(spec_name)
            return holder["out"](**outs)

    G.__name__ = spec.name
    G.__qualname__ = spec.name
    spec.cls = G
    holder["data"] = {n for n, _ in spec.ins}
    holder["out"] = NamedTuple(spec.name + "Out", spec.outs)
    spec._holder = holder  # type: ignore[attr-defined]
    return G


def finish_inputs(specs: list[Spec]) -> None:
    by = {s.name: s for s in specs}
    for s in specs:
        fields: list[tuple[str, Any]] = list(s.ins)
        for j, b in enumerate(s.before):
            fields.append((f"rb{j}_{b}", RunBefore[by[b].cls]))
        for j, a in enumerate(s.after):
            fields.append((f"ra{j}_{a}", RunAfter[by[a].cls]))
        s._holder["in"] = NamedTuple(s.name + "In", fields)  # type: ignore[attr-defined]


def make_stages(specs: list[Spec]) -> None:
    for s in specs:
        make_class(s)
    finish_inputs(specs)


def gen_specs(rng: Any, wild: bool) -> tuple[list[Spec], dict[str, type]]:
    """Returns (stages, initial value names with types)."""
    n = int(rng.integers(10, 19) if rng.random() < 0.05 else rng.integers(2, 8))
    ninit = int(rng.integers(1, 4))
    uid = next(_uid)
    types: dict[str, type] = {}

    def typ(v: str) -> type:
        if v not in types:
            types[v] = TYPES[int(rng.integers(len(TYPES)))]
        return types[v]

    init = {f"i{k}": typ(f"i{k}") for k in range(ninit)}
    specs: list[Spec] = []
    pool = list(init)
    fresh = itertools.count()
    for k in range(n):
        name = f"S{uid}_{k}"
        if wild:
            universe = list(init) + [f"v{j}" for j in range(n)]
            ins = list(rng.choice(universe, size=int(rng.integers(0, 4)), replace=False))
            outs = list(rng.choice(universe, size=int(rng.integers(1, 3)), replace=False))
        else:
            ins = list(rng.choice(pool, size=min(len(pool), int(rng.integers(0, 4))), replace=False))
            outs = [f"v{next(fresh)}" for _ in range(int(rng.integers(1, 3)))]
            r = rng.random()
            if ins and r < 0.3:  # mutating stage
                outs[0] = ins[0]
            elif r < 0.4 and pool:  # overwrites an existing value without reading it
                outs[0] = str(rng.choice(pool))
                ins = [i for i in ins if i != outs[0]]
            pool += [o for o in outs if o not in pool]
        ins = [str(i) for i in dict.fromkeys(ins)]
        outs = [str(o) for o in dict.fromkeys(outs)]
        specs.append(
            Spec(
                name,
                [(i, typ(i)) for i in ins],
                [(o, typ(o)) for o in outs],
                hostile=rng.random() < 0.4,
            ),
        )
    # a stage that reads (nearly) everything there is
    if not wild and n > 4 and rng.random() < 0.3:
        out = f"v{next(fresh)}"
        ins = [v for v in pool if rng.random() < 0.9]
        specs.append(Spec(f"S{uid}_{n}", [(i, typ(i)) for i in ins], [(out, typ(out))], hostile=rng.random() < 0.4))
        n += 1
    # restrictions
    if rng.random() < 0.55:
        for _ in range(int(rng.integers(1, 3))):
            a, b = (specs[int(i)] for i in rng.choice(n, size=2, replace=rng.random() < 0.03))
            if rng.random() < 0.5:
                if b.name not in a.before:
                    a.before.append(b.name)
            elif b.name not in a.after:
                a.after.append(b.name)
    # a type mismatch now and then
    if rng.random() < 0.12:
        s = specs[int(rng.integers(n))]
        if s.ins:
            j = int(rng.integers(len(s.ins)))
            nm, t = s.ins[j]
            s.ins[j] = (nm, next(x for x in TYPES if x is not t))
    return specs, init


class RefError(Exception):
    pass


def ref_levels(specs: list[Spec], init: dict[str, type]) -> list[list[str]]:
    """Reference resolution, written from the documentation of the builder.

    Stages run as soon as their inputs exist and the stages they must follow have run.  If a
    stage that rewrites one of its own inputs is ready, other ready readers of that value
    wait.  Two ready stages rewriting the same value, or producing the same value at the
    same time, are ambiguous.
    """
    avail = set(init.items())
    left = {s.name: s for s in specs}
    after: dict[str, set[str]] = {s.name: set(s.after) for s in specs}
    for s in specs:
        for b in s.before:
            if b in after:
                after[b].add(s.name)
    done: set[str] = set()
    levels: list[list[str]] = []
    while left:
        ready = [s for s in left.values() if set(s.ins) <= avail and after[s.name] <= done]
        rewriting = {s.name: set(s.ins) & set(s.outs) for s in ready}
        for s, t in itertools.combinations(ready, 2):
            if rewriting[s.name] & rewriting[t.name]:
                raise RefError(f"ambiguous rewriters {s.name} {t.name}")
        level = []
        for s in ready:
            blocked = False
            for t in ready:
                # a value this stage rewrites itself never blocks it
                if t is not s and (rewriting[t.name] & set(s.ins)) - rewriting[s.name]:
                    blocked = True
            if not blocked:
                level.append(s)
        for s, t in itertools.combinations(level, 2):
            if set(s.outs) & set(t.outs):
                raise RefError(f"ambiguous producers {s.name} {t.name}")
        if not level:
            raise RefError("unsatisfiable: " + ", ".join(left))
        for s in level:
            avail |= set(s.outs)
            done.add(s.name)
            del left[s.name]
        levels.append([s.name for s in level])
    return levels


class RefRun:
    """Executable reference for the runner: what a history of operations must yield."""

    def __init__(self, specs: list[Spec], levels: list[list[str]]) -> None:
        self.by = {s.name: s for s in specs}
        self.levels = levels
        self.lv = {n: i for i, lev in enumerate(levels) for n in lev}
        self.reset({})

    def reset(self, init: dict[str, Any]) -> None:
        self.entry = [dict(init)]
        self.outs: dict[str, dict[str, Any]] = {}
        self.cur = 0

    def state(self) -> dict[str, Any]:
        d = dict(self.entry[self.cur])
        if self.cur < len(self.levels):
            for n in self.levels[self.cur]:
                d.update(self.outs.get(n, {}))
        return d

    def can_run(self, name: str) -> bool:
        return self.lv[name] <= self.cur

    def inputs_for(self, name: str, over: dict[str, Any]) -> dict[str, Any] | None:
        d = {**self.entry[self.lv[name]], **over}
        ins = [n for n, _ in self.by[name].ins]
        if any(i not in d for i in ins):
            return None
        return {i: d[i] for i in ins}

    def run(self, name: str, over: dict[str, Any]) -> dict[str, Any]:
        i = self.lv[name]
        ins = self.inputs_for(name, over)
        assert ins is not None
        self.rollback(i)
        self.outs[name] = sym_outputs(name, [o for o, _ in self.by[name].outs], ins)
        if all(n in self.outs for n in self.levels[i]):
            nxt = dict(self.entry[i])
            for n in self.levels[i]:
                nxt.update(self.outs[n])
            self.entry.append(nxt)
            self.cur = i + 1
        return self.outs[name]

    def rollback(self, i: int) -> None:
        if i < self.cur:
            self.cur = i
            del self.entry[i + 1 :]
            for lev in self.levels[i + 1 :]:
                for n in lev:
                    self.outs.pop(n, None)
