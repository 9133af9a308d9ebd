"""What a process has besides the values it computes: settings, random states, threads, files, figures."""

from __future__ import annotations

import contextlib
import decimal
import gc
import locale
import logging
import os
import random
import signal
import sys
import tempfile
import threading
import warnings
from pathlib import Path
from typing import Any, Iterator

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd

# the worker processes and threads that joblib keeps for its next parallel run
POOL = ("ExecutorManagerThread", "QueueFeederThread", "QueueManagerThread")

PANDAS = ("display.max_rows", "display.max_columns", "display.width", "display.precision", "mode.chained_assignment", "mode.copy_on_write")


def _threads() -> list[str]:
    return sorted(t.name for t in threading.enumerate() if t.name not in POOL and not t.name.startswith(("QueueFeeder", "ExecutorManager")))


def _files() -> list[str]:
    out = []
    for fd in os.listdir("/proc/self/fd"):
        with contextlib.suppress(OSError):
            name = os.readlink(f"/proc/self/fd/{fd}")
            if name.startswith("/") and not name.startswith(("/dev/", "/proc/")) and "/loky-" not in name and "/site-packages/" not in name:
                out.append(name)
    return sorted(out)


def _tree(d: str) -> list[str]:
    return sorted(str(p.relative_to(d)) for p in Path(d).rglob("*") if not str(p.relative_to(d)).startswith(("joblib_memmapping", "loky")))


def _options() -> dict[str, Any]:
    return {k: pd.get_option(k) for k in PANDAS}


def snapshot() -> dict[str, Any]:
    """Everything of the process that a library should leave as it is."""
    names, keys, pos, has, cached = np.random.get_state()
    return {
        "random state of python": random.getstate(),
        "random state of numpy": (names, keys.tobytes(), pos, has, cached),
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "module search path": list(sys.path),
        "error handling of numpy": (np.geterr(), np.geterrcall()),
        "printing of numpy": {k: repr(v) for k, v in np.get_printoptions().items()},
        "warning filters": [(f[0], str(getattr(f[1], "pattern", f[1])), f[2], str(getattr(f[3], "pattern", f[3])), f[4]) for f in warnings.filters],
        "way of showing warnings": warnings.showwarning,
        "settings of matplotlib": {k: repr(v) for k, v in matplotlib.rcParams.items()},
        "backend of matplotlib": matplotlib.get_backend(),
        "open figures": plt.get_fignums(),
        "interactive plotting": plt.isinteractive(),
        "options of pandas": _options(),
        "logging": (logging.getLogger().level, len(logging.getLogger().handlers), logging.root.manager.disable, logging.raiseExceptions),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "standard output": (sys.stdout, sys.stderr, sys.stdin),
        "hooks": (sys.excepthook, sys.displayhook, threading.excepthook, sys.gettrace(), sys.getprofile(), threading.gettrace()),
        "collection of garbage": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        "signal handlers": {s: signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGUSR1, signal.SIGCHLD, signal.SIGALRM)},
        "locale": locale.setlocale(locale.LC_ALL),
        "decimal context": repr(decimal.getcontext()),
        "threads": _threads(),
        "open files": _files(),
        "files in the working directory": _tree(os.getcwd()),
        "temporary files": _tree(tempfile.gettempdir()),
    }


def changes(before: dict[str, Any], after: dict[str, Any]) -> list[str]:
    out = []
    for k in before:
        a, b = before[k], after[k]
        if a != b:
            if isinstance(a, dict):
                what = {x: (a.get(x), b.get(x)) for x in set(a) | set(b) if a.get(x) != b.get(x)}
            else:
                what = "" if "random" in k else (a, b)
            out.append(f"{k} {str(what)[:300]}".strip())
    return out


@contextlib.contextmanager
def odd(rng: np.random.Generator, scratch: Path) -> Iterator[dict[str, str]]:
    """A process whose user has settings of his own, in a directory of his own; puts back everything afterwards."""
    here, temp, env = scratch / "here", scratch / "temp", dict(os.environ)
    for d in (here, temp):
        d.mkdir(parents=True)
    (here / "notes.txt").write_text("of the user")
    old = {
        "cwd": os.getcwd(), "err": np.geterr(), "print": np.get_printoptions(), "filters": list(warnings.filters), "rc": dict(matplotlib.rcParams), "pandas": _options(),
        "rec": sys.getrecursionlimit(), "switch": sys.getswitchinterval(), "temp": tempfile.tempdir, "level": logging.getLogger().level, "gc": gc.get_threshold(),
        "py": random.getstate(), "np": np.random.get_state(), "prec": decimal.getcontext().prec, "path": list(sys.path), "figs": plt.get_fignums(), "show": warnings.showwarning,
        "out": (sys.stdout, sys.stderr), "hooks": (sys.excepthook, sys.displayhook), "callback": np.geterrcall(), "disable": logging.root.manager.disable, "on": gc.isenabled(),
        "interactive": plt.isinteractive(), "handlers": list(logging.getLogger().handlers),
        "signals": {s: signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGUSR1, signal.SIGCHLD, signal.SIGALRM)},
    }
    try:
        os.chdir(here)
        os.environ["ISA_OF_THE_USER"] = "1"
        os.environ["TMPDIR"] = tempfile.tempdir = str(temp)
        np.seterr(**{k: str(rng.choice(["ignore", "warn"])) for k in ("divide", "over", "under", "invalid")})
        np.set_printoptions(precision=int(rng.integers(3, 15)), suppress=bool(rng.random() < 0.5))
        warnings.simplefilter(str(rng.choice(["ignore", "ignore", "always", "once"])))
        warnings.filterwarnings("ignore", message=f"of the user {rng.integers(100)}")
        matplotlib.rcParams["font.size"] = float(rng.integers(6, 16))
        matplotlib.rcParams["axes.grid"] = bool(rng.random() < 0.5)
        matplotlib.rcParams["image.cmap"] = str(rng.choice(["viridis", "gray", "hot"]))
        if rng.random() < 0.5:
            plt.figure(num=int(rng.integers(1, 40)))
        pd.set_option("display.max_rows", int(rng.integers(5, 90)))
        pd.set_option("display.precision", int(rng.integers(2, 9)))
        sys.setrecursionlimit(int(rng.integers(2000, 5000)))
        sys.setswitchinterval(float(rng.choice([0.001, 0.005, 0.01])))
        logging.getLogger().setLevel(int(rng.choice([10, 30, 50])))
        gc.set_threshold(int(rng.integers(300, 2500)), 10, 10)
        decimal.getcontext().prec = int(rng.integers(8, 40))
        random.seed(int(rng.integers(1 << 30)))
        np.random.seed(int(rng.integers(1 << 30)))
        random.gauss(0, 1)
        np.random.normal(size=3)
        yield {"here": str(here), "temp": str(temp)}
    finally:
        os.chdir(old["cwd"])
        os.environ.clear()
        os.environ.update(env)
        tempfile.tempdir = old["temp"]
        np.seterr(**old["err"])
        np.seterrcall(old["callback"])
        np.set_printoptions(**{k: v for k, v in old["print"].items() if k != "override_repr"})
        warnings.filters[:] = old["filters"]
        warnings.showwarning = old["show"]
        warnings._filters_mutated()  # noqa: SLF001
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            matplotlib.rcParams.update(old["rc"])
            for k, v in old["pandas"].items():
                pd.set_option(k, v)
        for f in plt.get_fignums():
            if f not in old["figs"]:
                plt.close(f)
        (plt.ion if old["interactive"] else plt.ioff)()
        sys.setrecursionlimit(old["rec"])
        sys.setswitchinterval(old["switch"])
        sys.stdout, sys.stderr = old["out"]
        sys.excepthook, sys.displayhook = old["hooks"]
        sys.path[:] = old["path"]
        logging.getLogger().setLevel(old["level"])
        logging.getLogger().handlers[:] = old["handlers"]
        logging.disable(old["disable"])
        gc.set_threshold(*old["gc"])
        (gc.enable if old["on"] else gc.disable)()
        decimal.getcontext().prec = old["prec"]
        random.setstate(old["py"])
        np.random.set_state(old["np"])
        for s, h in old["signals"].items():
            if signal.getsignal(s) is not h and h is not None:
                signal.signal(s, h)


class Interrupted(BaseException):
    """Like a key press: it may come at any moment, and nothing is to hold it back."""


SPARED = ("/random.py", "/contextlib.py", "/threading.py", "/weakref.py", "/warnings.py", "/traceback.py", "<frozen")


class Breaker:
    """Watches the calls that the code under test makes and receives; can break the chosen one off."""

    def __init__(self, package: str, where: tuple | None = None, nth: int = 0) -> None:
        self.package, self.where, self.nth = package, where, nth
        self.calls: dict[tuple, int] = {}
        self.fired: tuple | None = None

    def _see(self, frame: Any, event: str, _arg: Any) -> None:
        if event != "call":
            return
        code, up = frame.f_code, frame.f_back
        inside = code.co_filename.startswith(self.package)
        if not inside and (up is None or not up.f_code.co_filename.startswith(self.package)):
            return
        if up is not None and up.f_code.co_name in ("__exit__", "__del__"):
            return  # (putting things back)
        if any(s in code.co_filename for s in SPARED) or code.co_name in ("<lambda>", "__exit__", "__del__", "close", "close_all") or (not inside and code.co_name.startswith("_remove")):
            return
        key = (os.path.basename(code.co_filename), code.co_name, up.f_code.co_name if up else "")
        seen = self.calls[key] = self.calls.get(key, 0) + 1
        if key == self.where and seen == self.nth and self.fired is None:
            self.fired = key
            raise Interrupted

    def __enter__(self) -> "Breaker":
        sys.setprofile(None)
        sys.settrace(self._see)
        return self

    def __exit__(self, *exc: object) -> None:
        sys.settrace(None)
