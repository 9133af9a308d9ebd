"""K05: a save either writes all of its files or says that it did not; and can be made again."""

import contextlib
import gc
import os
import resource
import shutil
import tempfile
from pathlib import Path
from typing import Any, Iterator

import matplotlib.pyplot as plt

from monitor import figures as fg
from monitor import model as mm
from monitor.harness import Ctx, Family, main

SAVERS = {
    "csv": lambda m, d: m.save_to_csv(d),
    "web": lambda m, d: m.save_for_web(d),
    "graphs": lambda m, d: m.save_graphs(d),
    "mat": lambda m, d: m.save_to_mat(d),
    "zip": lambda m, d: m.save_zip("all.zip", d),
}


def contents(d: Path) -> dict[str, bytes]:
    got = {str(p.relative_to(d)): p.read_bytes() for p in sorted(d.rglob("*")) if p.is_file()}
    return {k: v[128:] if k.endswith(".mat") else b"" if k.endswith(".zip") else v for k, v in got.items()}  # (archives and mat files have times in them)


def prepare(d: Path) -> Path:
    d.mkdir()
    (d / "here before.txt").write_text("of the user" * 100)
    (d / "more").mkdir()
    (d / "more" / "numbers.bin").write_bytes(bytes(range(256)) * 40)
    return d


@contextlib.contextmanager
def limited(size: int) -> Iterator[None]:
    """No file may grow beyond this size (as if the disk were full)."""
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (size, old[1]))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)


@contextlib.contextmanager
def drawing(full: bool) -> Iterator[None]:
    with contextlib.nullcontext() if full else fg.watching(False):
        yield


def faults(ctx: Ctx) -> None:
    rng = ctx.rng
    m = mm.model(rng)
    kind = list(SAVERS)[ctx.index % len(SAVERS)]
    do = SAVERS[kind]
    full = ctx.index % 3 == 0 or kind != "graphs"
    before = mm.freeze(m)
    figs = plt.get_fignums()
    with tempfile.TemporaryDirectory(dir=os.environ.get("ISA_SCRATCH")) as tmp, drawing(full):
        ref = prepare(Path(tmp) / "ref")
        base = contents(ref)
        do(m, ref)
        want = contents(ref)
        made = sorted(set(want) - set(base))
        ctx.event("files", len(made))
        sizes = {k: (ref / k).stat().st_size for k in made}
        ways = ["occupied"] * min(len(made), 6) + ["nowhere", "not_a_directory"]
        if full:
            ways += ["full", "full"]
        if kind == "zip":
            ways += ["unreadable"]
        picks = list(rng.permutation(made))
        for step, way in enumerate(ways):
            d = prepare(Path(tmp) / f"d{step}")
            fault: Any = None
            what = way
            with contextlib.ExitStack() as hold:
                if way == "occupied":  # there is a folder where a file should go
                    fault = picks[step % len(picks)]
                    (d / fault).mkdir()
                    (d / fault / "inside.txt").write_text("of the user")
                    what = f"a folder is in the place of {fault}"
                elif way == "nowhere":
                    to = d / "nowhere"
                    what = "the directory does not exist"
                elif way == "not_a_directory":
                    to = d / "here before.txt"
                    what = "the directory is a file"
                elif way == "unreadable":
                    gone = d / str(rng.choice(["gone.csv", "more/gone.csv"]))
                    gone.symlink_to("nothing")
                    what = "a file to be archived cannot be read"
                else:
                    big = str(picks[int(rng.integers(len(picks)))])
                    size = int(rng.integers(0, max(1, sizes[big])))
                    what = f"files can have {size} bytes ({big} needs {sizes[big]})"
                    hold.enter_context(limited(size))
                try:
                    do(m, to if way in ("nowhere", "not_a_directory") else d)
                    said = False
                except Exception as e:  # noqa: BLE001
                    said = True
                    ctx.event(f"said_{type(e).__name__}")
            ctx.event(f"{way}_{kind}")
            ctx.event("fault")
            ctx.require(said, f"silent-{kind}-{way}", lambda: f"saving ({kind}) reports nothing although {what}; written: {sorted(set(made) - set(contents(d)))[:5]} missing")
            ctx.require(mm.freeze(m) == before, "model-changed", f"a failed save ({kind}, {what}) changed the model")
            ctx.require(set(plt.get_fignums()) <= set(figs), "figures", lambda: f"a failed save ({kind}, {what}) left {len(set(plt.get_fignums()) - set(figs))} figures behind")
            for f in plt.get_fignums():
                if f not in figs:
                    plt.close(f)
            now = contents(d)
            bad = [k for k in base if now.get(k) != base[k]]
            ctx.require(not bad, "other-files", lambda: f"a failed save ({kind}, {what}) changed {bad}")
            if way == "occupied":
                ctx.require((d / fault / "inside.txt").read_text() == "of the user", "other-files", f"a failed save ({kind}) changed the folder in its way")
                ctx.require(set(now) - {f"{fault}/inside.txt"} <= set(want), "litter", lambda: f"a failed save ({kind}, {what}) leaves {sorted(set(now) - set(want))[:5]} behind")
                shutil.rmtree(d / fault)
            elif way in ("full", "unreadable"):
                if way == "unreadable":
                    gone.unlink()
                ctx.require(set(now) <= set(want), "litter", lambda: f"a failed save ({kind}, {what}) leaves {sorted(set(now) - set(want))[:5]} behind")
            else:
                ctx.require(set(now) == set(base), "litter", lambda: f"a failed save ({kind}, {what}) made {sorted(set(now) - set(base))[:5]}")
            # the obstacle is gone: the same save again
            gc.collect()
            do(m, d)
            got = contents(d)
            ctx.event("again")
            bad = sorted(set(got) ^ set(want)) + [k for k in want if got.get(k) not in (want[k], None)]
            ctx.require(not bad, "again", lambda: f"saved again ({kind}) after {what}, these differ: {bad[:5]}")
            ctx.distinct(kind, way, fault if fault is None else fault.split("_")[0])
            shutil.rmtree(d)
    ctx.sample({"kind": kind, "files": made[:20], "ways": ways})


main(
    "K05",
    [Family("faults", faults, 60, 1500, 200.0)],
    rule="random finished models saved in every form while a folder is in the place of a file, files cannot grow any more, or the directory is missing or a file; distinct = form, fault and file",
    assumptions=[],
    required_events=["fault", "again", "unreadable_zip", *[f"{w}_{k}" for w in ("occupied", "full", "nowhere", "not_a_directory") for k in SAVERS]],
)
