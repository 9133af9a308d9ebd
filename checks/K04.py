"""K04: saving changes nothing but the files it writes; archives and mat files hold what was saved."""

import os
import random
import tempfile
import zipfile
from pathlib import Path

import matplotlib as mpl
import matplotlib.pyplot as plt
import numpy as np
from scipy.io import loadmat

from monitor import figures as fg
from monitor import model as mm
from monitor.harness import Ctx, Family, main

SAVERS = ("save_to_csv", "save_for_web", "save_graphs", "save_to_mat")


def contents(d: Path) -> dict[str, bytes]:
    return {str(p.relative_to(d)): p.read_bytes() for p in sorted(d.rglob("*")) if p.is_file()}


def stable(files: dict[str, bytes]) -> dict[str, bytes]:
    return {k: (v if not k.endswith(".mat") else v[128:]) for k, v in files.items()}  # (mat files start with the time)


def purity(ctx: Ctx) -> None:
    rng = ctx.rng
    m = mm.model(rng)
    before = mm.freeze(m)
    fresh = mm.clone(m)
    with tempfile.TemporaryDirectory(dir=os.environ.get("ISA_SCRATCH")) as tmp, fg.watching(ctx.index % 8 == 0):
        mine = None
        if rng.random() < 0.5:  # the user has a plot of their own
            mine = plt.figure()
            mine.add_subplot().plot([1, 2, 3])
            ctx.event("own_figure")
        rc, figs, cwd = dict(mpl.rcParams), plt.get_fignums(), os.getcwd()
        state, pystate = np.random.get_state(), random.getstate()
        kept = {"notes.txt": b"mine", "coordinates.txt": b"also mine"}
        seq = [SAVERS[k] for k in rng.permutation(4)]
        seq += [SAVERS[k] for k in rng.integers(0, 4, size=int(rng.integers(1, 4))) if SAVERS[k] != "save_graphs"]
        first: dict[str, dict[str, bytes]] = {}
        for step, name in enumerate(seq):
            out = Path(tmp) / f"{step}"
            out.mkdir()
            for k, v in kept.items():
                (out / k).write_bytes(v)
            getattr(m, name)(out)
            ctx.event("save")
            got = contents(out)
            ctx.require(all(got.pop(k, None) == v for k, v in kept.items()), "other-files", f"{name} changed files it does not write")
            ctx.require(mm.freeze(m) == before, "model-changed", f"{name} changed the model")
            got = stable(got)
            if name in first:
                ctx.event("save_again")
                ctx.require(first[name] == got, "not-repeatable", lambda: f"{name} wrote other files the second time: {[k for k in first[name] if first[name][k] != got.get(k)][:5]}")
            first.setdefault(name, got)
            ctx.require(plt.get_fignums() == figs, "figures", lambda: f"{name} left {len(plt.get_fignums()) - len(figs)} figures behind")
            if mine is not None:
                ctx.require(plt.gcf() is mine and len(mine.axes) == 1 and len(mine.axes[0].lines) == 1, "own-figure", f"{name} changed a figure that was open")
        ctx.require(dict(mpl.rcParams) == rc, "settings", "plot settings were changed")
        ctx.require(os.getcwd() == cwd, "directory", "the working directory was changed")
        s2 = np.random.get_state()
        ctx.require(s2[2] == state[2] and np.array_equal(s2[1], state[1]) and random.getstate() == pystate, "random-state", "saving drew random numbers")
        for name in SAVERS:  # what was saved before makes no difference
            if name == "save_graphs":
                continue
            out = Path(tmp) / f"fresh-{name}"
            out.mkdir()
            getattr(fresh, name)(out)
            ctx.require(stable(contents(out)) == first[name], "order", lambda: f"{name} writes something else after {seq}")
        # a directory that is already full of the same files: they are replaced
        out = Path(tmp) / "again"
        out.mkdir()
        m.save_to_csv(out)
        old = mm.clone(m)
        other = mm.model(rng)
        other.save_to_csv(out)
        got, alone = contents(out), Path(tmp) / "alone"
        alone.mkdir()
        other.save_to_csv(alone)
        ctx.event("overwrite")
        ctx.require(all(got.get(k) == v for k, v in contents(alone).items()), "overwrite", "older files were not replaced")
        del old
        missing = Path(tmp) / "nowhere"
        for name in SAVERS[:3]:
            try:
                getattr(m, name)(missing)
                ctx.violation("no-directory", f"{name} to a directory that does not exist reports nothing")
            except ValueError:
                ctx.event("refused")
            ctx.require(not missing.exists(), "no-directory", f"{name} made a directory")
    ctx.distinct(seq, ctx.index)
    ctx.sample({"order": seq})


def archive(ctx: Ctx) -> None:
    rng = ctx.rng
    m = mm.model(rng, big=True)
    with tempfile.TemporaryDirectory(dir=os.environ.get("ISA_SCRATCH")) as tmp:
        out = Path(tmp) / "o"
        out.mkdir()
        m.save_to_mat(out)
        got = loadmat(out / "model.mat", simplify_cells=True, chars_as_strings=True)["data"]["algolabels"]
        got = [got] if isinstance(got, str) else list(got)
        ctx.event("labels")
        ctx.require([str(g) for g in got] == m.data.algo_labels, "mat", lambda: f"the mat file has algorithms {got}, the model has {m.data.algo_labels}")
        subs = [out] + [out / s for s in ("csv", "web", "deep/er")[: rng.integers(0, 4)]]
        for s in subs:
            s.mkdir(parents=True, exist_ok=True)
        m.save_to_csv(subs[rng.integers(len(subs))])
        m.save_for_web(subs[rng.integers(len(subs))])
        for k in range(int(rng.integers(0, 5))):
            name = str(rng.choice(["extra{}.bin", "extra {}.txt", "output{}.zip", ".hidden{}", "größe{}"])).format(k)
            (subs[rng.integers(len(subs))] / name).write_bytes(rng.bytes(int(rng.choice([0, 1, 5000]))))
        if rng.random() < 0.5:
            (out / ".gitignore").write_text("*")
        zname = str(rng.choice(["output.zip", "all results.zip", "x.ZIP"]))
        if rng.random() < 0.3:
            (out / zname).write_bytes(b"an older archive")
        for like in (f"old {zname}", f"my{zname}", f"{zname}.bak", "x.gitignore", ".gitignores", zname.swapcase()):
            if rng.random() < 0.2:
                ctx.event("lookalike")
                (subs[rng.integers(len(subs))] / like).write_bytes(rng.bytes(9))
        want = {Path(k).name: v for k, v in contents(out).items() if Path(k).name not in (".gitignore", zname)}
        before = {k: v for k, v in contents(out).items() if k != zname}
        m.save_zip(zname, str(out) if ctx.index % 2 else out)
        after = {k: v for k, v in contents(out).items() if k != zname}
        ctx.require(before == after, "other-files", "making the archive changed the files in the directory")
        with zipfile.ZipFile(out / zname) as zf:
            bad = zf.testzip()
            ctx.require(bad is None, "archive", f"{bad} is damaged in the archive")
            inside = {n: zf.read(n) for n in zf.namelist()}
        ctx.event("archived", len(inside))
        ctx.require(len({Path(n).name for n in inside}) == len(inside), "archive", "a file is twice in the archive")
        ctx.require({Path(n).name: v for n, v in inside.items()} == want, "archive", lambda: f"the archive has {sorted(inside)[:50]}, the directory {sorted(want)[:50]}")
        ctx.require(all(n.startswith("output/") for n in inside), "archive", "files are not in the archive's output folder")
    ctx.distinct(len(inside), ctx.index)
    ctx.sample({"files": sorted(inside)[:30]})


main(
    "K04",
    [Family("purity", purity, 64, 1500), Family("archive", archive, 150, 3000)],
    rule="random finished models saved in random orders and repeatedly, watching the model, the directory, open figures, settings and random state; archives compared with the directory; distinct = orders, contents",
    assumptions=["files of the same name in different folders cannot both be in the archive (it has one folder)"],
    required_events=["save", "save_again", "own_figure", "labels", "archived", "overwrite", "refused", "lookalike"],
)
