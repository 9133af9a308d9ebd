"""Exploration harness: runs the real code on generated cases while monitors watch.

A check is a list of *families*.  A family is a function ``case(ctx)`` that drives the
code under test with inputs drawn from ``ctx.rng`` and reports what its monitors saw:

    ctx.event(kind, n)      monitored events (what the oracle actually compared)
    ctx.distinct(sig)       a distinct, non-trivial situation reached by this case
    ctx.require(cond, ...)  an oracle verdict
    ctx.violation(...)      a monitored property violation

Every case is a pure function of (VERIF_SEED, family, index): a violation is replayed by
``check.sh ID --replay FILE``.  Exit codes: 0 held, 1 violated, 2 the check itself failed.
"""

from __future__ import annotations

import contextlib
import errno
import faulthandler
import hashlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings
import zlib
from collections import Counter
from pathlib import Path
from typing import Any, Callable

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("ISA_REPO", "/repo")).resolve()
PKG = str(REPO / "instancespace")


OUT_OF_RESOURCES = {errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.ENFILE, errno.EAGAIN, errno.EDQUOT}


class CaseTimeout(Exception):
    """A case ran past its time limit."""


class StopCase(Exception):
    """The case cannot usefully go on (a violation has been recorded)."""


def jsonable(o: Any, depth: int = 0) -> Any:
    import numpy as np
    import pandas as pd

    if depth > 6:
        return repr(o)[:200]
    if o is None or isinstance(o, (bool, int, str)):
        return o if not isinstance(o, str) else o[:2000]
    if isinstance(o, float):
        return o if o == o and abs(o) != float("inf") else repr(o)
    if isinstance(o, np.generic):
        return jsonable(o.item(), depth)
    if isinstance(o, np.ndarray):
        if o.size > 400:
            return {"shape": list(o.shape), "head": jsonable(o.ravel()[:40].tolist())}
        return jsonable(o.tolist(), depth + 1)
    if isinstance(o, (pd.Series, pd.DataFrame)):
        return o.to_csv()[:2000]
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(o.items())[:60]}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in list(o)[:200]]
    return repr(o)[:400]


class Ctx:
    def __init__(self, family: str, index: int, seed: int, tier: str) -> None:
        import numpy as np

        self.family, self.index, self.seed, self.tier = family, index, seed, tier
        self.rng = np.random.default_rng(
            [seed, zlib.crc32(family.encode()), index],
        )
        self.events: Counter[str] = Counter()
        self.sigs: set[str] = set()
        self.violations: list[dict[str, Any]] = []
        self.samples: list[Any] = []
        self.note: dict[str, Any] = {}

    def event(self, kind: str, n: int = 1) -> None:
        if n:
            self.events[kind] += int(n)

    def distinct(self, *sig: Any) -> None:
        h = hashlib.blake2b(repr(sig).encode(), digest_size=8).hexdigest()
        self.sigs.add(h)

    def sample(self, obj: Any) -> None:
        if len(self.samples) < 2:
            self.samples.append(jsonable(obj))

    def violation(self, key: str, msg: str, **data: Any) -> None:
        if len(self.violations) < 5:
            self.violations.append(
                {"key": key, "msg": msg[:1500], "data": jsonable(data)},
            )

    def require(self, cond: Any, key: str, msg: str | Callable[[], str] = "", **data: Any) -> bool:
        if not bool(cond):
            self.violation(key, msg() if callable(msg) else (msg or key), **data)
            return False
        return True

    def fatal(self, key: str, msg: str, **data: Any) -> None:
        self.violation(key, msg, **data)
        raise StopCase

    @contextlib.contextmanager
    def time_limit(self, seconds: float):  # noqa: ANN201
        def on_alarm(_s: int, _f: Any) -> None:
            raise CaseTimeout

        old = signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, seconds)
        try:
            yield
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)


def in_repo_traceback(tb: Any) -> str | None:
    """Where in the code under test did this exception come from (innermost frame)?"""
    hit = None
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(PKG):
            hit = f"{Path(fr.filename).relative_to(REPO)}:{fr.name}"
    return hit


class Family:
    def __init__(
        self,
        name: str,
        fn: Callable[[Ctx], None],
        quick: int,
        thorough: int,
        limit: float = 120.0,
    ) -> None:
        self.name, self.fn, self.quick, self.thorough = name, fn, quick, thorough
        self.limit = limit


_FAMILIES: dict[str, Family] = {}


def _run_case(task: tuple[str, int, int, str]) -> dict[str, Any]:
    fam, index, seed, tier = task
    ctx = Ctx(fam, index, seed, tier)
    err = None
    timed_out = False
    t0 = time.time()
    import random

    import numpy as np

    np.random.seed((seed * 7919 + index) % (2**32))
    random.seed(seed * 7919 + index)
    sink = io.StringIO()
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(sink):
            warnings.simplefilter("ignore")
            with ctx.time_limit(_FAMILIES[fam].limit):
                _FAMILIES[fam].fn(ctx)
    except StopCase:
        pass
    except CaseTimeout:
        timed_out = True
    except BaseException as e:  # noqa: BLE001
        where = in_repo_traceback(e.__traceback__)
        text = "".join(traceback.format_exception(e))[-3000:]
        if where is not None:
            ctx.violation(
                f"crash:{type(e).__name__}",
                f"code under test raised {type(e).__name__}: {e} at {where}",
                traceback=text,
            )
        elif isinstance(e, Exception) and not isinstance(e, MemoryError) and getattr(e, "errno", None) not in OUT_OF_RESOURCES:
            # the oracle could not even read what the code under test produced
            ctx.violation(f"malformed:{type(e).__name__}", f"unreadable result: {type(e).__name__}: {e}", traceback=text)
        else:
            err = text
    finally:
        try:
            import matplotlib.pyplot as plt

            if "matplotlib.pyplot" in sys.modules:
                plt.close("all")
        except Exception:  # noqa: BLE001, S110
            pass
    return {
        "family": fam,
        "index": index,
        "events": dict(ctx.events),
        "sigs": list(ctx.sigs),
        "violations": ctx.violations,
        "samples": ctx.samples,
        "err": err,
        "timed_out": timed_out,
        "t": time.time() - t0,
    }


def _init_worker() -> None:
    faulthandler.enable(os.fdopen(os.dup(2), "w"))
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)  # the log of the code under test
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def load_known() -> list[dict[str, str]]:
    out = []
    p = VERIF / "known_findings.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            if line.startswith("known:"):
                head, _, what = line[len("known:") :].strip().partition(" -- ")
                d = dict(tok.split("=", 1) for tok in head.split() if "=" in tok)
                d["what"] = what
                out.append(d)
    return out


def main(
    pid: str,
    families: list[Family],
    rule: str,
    assumptions: list[str],
    required_events: list[str] | None = None,
    level: str = "exploration",
    workers: int | None = None,
    budget: float | None = None,
) -> None:
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    only: str | None = None
    argv = sys.argv[1:]
    while argv:
        a = argv.pop(0)
        if a == "--replay":
            replay = json.loads(Path(argv.pop(0)).read_text())
            seed, tier = replay["seed"], replay["tier"]
            replay = replay if "family" in replay else None
        elif a == "--family":
            only = argv.pop(0)
        elif a in ("quick", "thorough"):
            tier = a
    if tier not in ("quick", "thorough"):
        tier = "quick"

    import instancespace

    if not str(Path(instancespace.__file__).resolve()).startswith(PKG):
        print(f"HARNESS-ERROR wrong instancespace: {instancespace.__file__}")
        sys.exit(2)

    for f in families:
        _FAMILIES[f.name] = f

    tasks: list[tuple[str, int, int, str]] = []
    if replay is not None:
        tasks = [(replay["family"], replay["index"], seed, tier)]
    else:
        per = [
            [(f.name, i, seed, tier) for i in range(f.quick if tier == "quick" else f.thorough)]
            for f in families
            if only is None or f.name == only
        ]
        # interleave families proportionally so a time cap thins all of them
        keyed = [((j + 0.5) / len(lst), t) for lst in per for j, t in enumerate(lst)]
        tasks = [t for _, t in sorted(keyed, key=lambda kt: kt[0])]

    if budget is None:
        budget = 480.0 if tier == "quick" else 3000.0
    nworkers = workers or min(8, os.cpu_count() or 1)
    results: list[dict[str, Any]] = []
    truncated = 0
    if replay is not None or nworkers == 1:
        saved = os.dup(1)
        for t in tasks:
            results.append(_run_case(t))
        os.dup2(saved, 1)
    else:
        ctx_mp = mp.get_context("fork")
        pool = ctx_mp.Pool(nworkers, initializer=_init_worker)
        try:
            it = pool.imap_unordered(_run_case, tasks, chunksize=1)
            for _ in range(len(tasks)):
                left = budget - (time.time() - t0)
                if left <= 0:
                    truncated = len(tasks) - len(results)
                    break
                try:
                    results.append(it.next(timeout=left))
                except mp.TimeoutError:
                    truncated = len(tasks) - len(results)
                    break
                last = results[-1]
                objections = {f"{last['family']}/{v['key']}" for v in last["violations"]} - {k.get("key") for k in load_known()}
                if os.environ.get("ISA_STOP") and objections:
                    break  # while developing: the first objection is enough
        finally:
            pool.terminate()
            pool.join()

    results.sort(key=lambda r: (r["family"], r["index"]))
    events: Counter[str] = Counter()
    sigs: set[str] = set()
    per_family: dict[str, dict[str, Any]] = {}
    samples: list[Any] = []
    errs = []
    viols = []
    for r in results:
        if r["timed_out"]:
            # a watchdog, not a deadline: a verdict only when every other case of the family
            # needed less than a fiftieth of the limit, otherwise inconclusive
            limit = _FAMILIES[r["family"]].limit
            others = [q["t"] for q in results if q["family"] == r["family"] and not q["timed_out"]]
            msg = f"no result within {limit}s"
            if others and max(others) < limit / 50:
                msg += f" ({len(others)} other cases took at most {max(others):.2f}s)"
                r["violations"].append({"key": "no-answer", "msg": msg, "data": {}})
            else:
                r["err"] = msg
        events.update(r["events"])
        fsig = {r["family"] + ":" + s for s in r["sigs"]}
        sigs |= fsig
        pf = per_family.setdefault(r["family"], {"cases": 0, "_s": set(), "cpu_s": 0.0, "max_case_s": 0.0})
        pf["cases"] += 1
        pf["_s"] |= fsig
        pf["cpu_s"] = round(pf["cpu_s"] + r["t"], 2)
        pf["max_case_s"] = max(pf["max_case_s"], round(r["t"], 2))
        if sum(1 for s in samples if s["family"] == r["family"]) < 2:
            for s in r["samples"][:1]:
                samples.append({"family": r["family"], "case": r["index"], "what": s})
        if r["err"]:
            errs.append(r)
        for v in r["violations"]:
            viols.append((r, v))
    for pf in per_family.values():
        pf["distinct"] = len(pf.pop("_s"))

    known = [k for k in load_known() if k.get("property") == pid]
    known_hit: dict[str, dict[str, str]] = {}
    new_viols = []
    for r, v in viols:
        full = f"{r['family']}/{v['key']}"
        k = next((k for k in known if k.get("key") == full), None)
        if k is not None:
            known_hit[full] = k
        else:
            new_viols.append((r, v))

    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(sigs),
            "rule": rule,
            "samples": samples[:14] or [{"note": "no sample recorded"}],
            "monitored_events": dict(sorted(events.items())),
            "families": per_family,
            "cases_not_run_for_time": truncated,
            "known_findings_seen": sorted(known_hit),
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new_viols),
    }
    if replay is None:
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1) + "\n")

    for full, k in sorted(known_hit.items()):
        print(f"KNOWN-FINDING: property={pid} {full} {k.get('what', '')}")

    if new_viols:
        rdir = VERIF / "evidence" / "replay"
        rdir.mkdir(parents=True, exist_ok=True)
        seen: Counter[str] = Counter()
        for r, v in new_viols:
            full = f"{r['family']}/{v['key']}"
            seen[full] += 1
            if seen[full] > 1 or len(seen) > 8:
                continue
            path = rdir / f"{pid}-{r['family']}-{r['index']}.json"
            path.write_text(
                json.dumps(
                    {
                        "property": pid,
                        "family": r["family"],
                        "index": r["index"],
                        "seed": seed,
                        "tier": tier,
                        "key": v["key"],
                        "message": v["msg"],
                        "data": v["data"],
                        "replay_with": f"./check.sh {pid} --replay {path}",
                    },
                    indent=1,
                    default=str,
                )
                + "\n",
            )
            print(f"VIOLATION property={pid} replay={path}")
            print("  [" + full + "] " + v["msg"][:600].replace("\n", " | "))
        print(f"  violations by kind: {dict(seen)}")
        sys.exit(1)

    if errs:
        for r in errs[:3]:
            print(f"HARNESS-ERROR family={r['family']} case={r['index']}\n{r['err']}")
        sys.exit(2)
    if replay is None and only is None:
        missing = [e for e in (required_events or []) if events[e] == 0]
        if missing and not truncated and "ISA_STOP" not in os.environ:
            # every case ran to its end, and yet none showed what the generator aims at: the code no longer gets there
            path = VERIF / "evidence" / "replay" / f"{pid}-not-observed.json"
            path.parent.mkdir(parents=True, exist_ok=True)
            path.write_text(json.dumps({"property": pid, "seed": seed, "tier": tier, "never_observed": missing, "events": dict(events), "replay_with": f"./check.sh {pid} --replay {path}"}, indent=1) + "\n")
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  [not-observed] {len(results)} cases ended without one of: {missing}")
            sys.exit(1)
        if not sigs or missing:
            print(f"HARNESS-ERROR vacuous run: distinct={len(sigs)} missing events={missing}")
            sys.exit(2)
    print(
        f"OK property={pid} tier={tier} cases={len(results)} distinct={len(sigs)} "
        f"events={sum(events.values())} wall={ev['wall_s']}s",
    )
    if only is not None or replay is not None:
        print(json.dumps(ev["coverage"]["monitored_events"]), json.dumps(per_family))
    sys.exit(0)
