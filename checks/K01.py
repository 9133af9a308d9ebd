"""K01: the csv files say what the model says."""

import os
import tempfile
from pathlib import Path

import numpy as np

from monitor import model as mm
from monitor.harness import Ctx, Family, main


def expect_table(ctx: Ctx, path: Path, cols: list[str], labels: list, values: np.ndarray) -> None:
    if not ctx.require(path.is_file(), "file-missing", f"{path.name} was not written"):
        return
    head, rows = mm.read_table(path)
    values = np.asarray(values, dtype=object)
    values = values.reshape(len(values), -1)
    ctx.require(head == ["Row", *cols], "columns", lambda: f"{path.name}: columns {head} instead of {['Row', *cols]}")
    if not ctx.require([r[0] for r in rows] == [str(v) for v in labels], "rows", lambda: f"{path.name}: rows {[r[0] for r in rows][:8]} instead of {list(labels)[:8]}"):
        return
    for i, r in enumerate(rows):
        for j, cell in enumerate(r[1:]):
            ctx.event("cell")
            ctx.require(j < values.shape[1] and mm.cell_is(cell, values[i, j]), "value", lambda: f"{path.name}: row {r[0]!r} column {head[j + 1]} is {cell!r}, the model has {values[i, j]!r}")


def expect_frame(ctx: Ctx, path: Path, frame) -> None:  # noqa: ANN001
    head, rows = mm.read_table(path)
    ctx.require(head == ["Row", *map(str, frame.columns[1:])], "columns", lambda: f"{path.name}: columns {head}, the summary has {list(frame.columns)}")
    ctx.require(len(rows) == len(frame), "rows", lambda: f"{path.name}: {len(rows)} rows, the summary has {len(frame)}")
    for i, r in enumerate(rows[: len(frame)]):
        for j, cell in enumerate(r):
            ctx.event("summary_cell")
            want = frame.iloc[i, j]
            ctx.require(mm.cell_is(cell, want), "value", lambda: f"{path.name}: row {i} column {head[j]} is {cell!r}, the summary has {want!r}")


def case(ctx: Ctx) -> None:
    rng = ctx.rng
    m = mm.model(rng, missing=ctx.family == "missing", big=ctx.index % 5 == 0, size=(int(rng.integers(200, 1500)), int(rng.integers(7, 30)), int(rng.integers(13, 25))) if ctx.index % 80 == 7 else None)
    ctx.event("large", int(ctx.index % 80 == 7))
    d = m.data
    want = mm.clone(m)
    with tempfile.TemporaryDirectory(dir=os.environ.get("ISA_SCRATCH")) as tmp:
        out = Path(tmp)
        m.save_to_csv(str(out) if ctx.index % 2 else out)
        labels = list(want.data.inst_labels)
        expect_table(ctx, out / "coordinates.csv", ["z_1", "z_2"], labels, want.pilot.z)
        for name, z in (("bounds.csv", want.cloister.z_edge), ("bounds_prunned.csv", want.cloister.z_ecorr)):
            expect_table(ctx, out / name, ["z_1", "z_2"], [f"bnd_pnt_{i + 1}" for i in range(len(z))], z)
        for name, cols, vals in (
            ("feature_raw.csv", d.feat_labels, want.data.x_raw[:, want.sifted.idx]),
            ("feature_process.csv", d.feat_labels, want.data.x),
            ("algorithm_raw.csv", d.algo_labels, want.data.y_raw),
            ("algorithm_process.csv", d.algo_labels, want.data.y),
            ("algorithm_bin.csv", d.algo_labels, want.data.y_bin),
            ("algorithm_svm.csv", d.algo_labels, want.pythia.y_hat),
            ("good_algos.csv", ["NumGoodAlgos"], want.data.num_good_algos),
            ("beta_easy.csv", ["IsBetaEasy"], want.data.beta),
            ("portfolio.csv", ["Best_Algorithm"], want.data.p),
            ("portfolio_svm.csv", ["Best_Algorithm"], want.pythia.selection0),
        ):
            expect_table(ctx, out / name, list(cols), labels, vals)
        expect_frame(ctx, out / "footprint_performance.csv", want.trace.summary.iloc[:, mm.KEPT])
        expect_frame(ctx, out / "svm_table.csv", want.pythia.summary)
        if want.pilot.summary is not None:
            expect_frame(ctx, out / "projection_matrix.csv", want.pilot.summary)
        for kind, fps in (("best", want.trace.best), ("good", want.trace.good)):
            for label, f in zip(d.algo_labels, fps):
                path = out / f"footprint_{label}_{kind}.csv"
                if f.polygon is None or f.polygon.is_empty:
                    ctx.require(not path.exists() or not mm.read_table(path)[1], "footprint", f"{path.name} has boundaries, but there is no footprint")
                    ctx.event("no_footprint")
                    continue
                if not ctx.require(path.is_file(), "file-missing", f"{path.name} was not written"):
                    continue
                head, rows = mm.read_table(path)
                ctx.require(head == ["Row", "z_1", "z_2"], "columns", lambda: f"{path.name}: columns {head}")
                ctx.require([r[0] for r in rows] == [f"bnd_pnt_{i + 1}" for i in range(len(rows))], "rows", lambda: f"{path.name}: rows {[r[0] for r in rows][:5]}")
                miss = mm.off(mm.region_of(rows), f.polygon)
                parts = list(getattr(f.polygon, "geoms", [f.polygon]))
                ctx.event("footprint_with_hole" if any(p.interiors for p in parts) else "split_footprint" if len(parts) > 1 else "simple_footprint")
                ctx.require(miss < 1e-9, "footprint", lambda: f"{path.name}: {100 * miss:.3g}% of the region differs")
    ctx.distinct(d.x.shape, d.y.shape, m.sifted.idx.tolist(), ctx.index)
    ctx.sample({"instances": len(d.x), "features": d.feat_labels, "algorithms": d.algo_labels})


main(
    "K01",
    [Family("plain", case, 400, 6000), Family("missing", case, 400, 6000)],
    rule="random finished models (labels of all kinds, missing cells, selected features in any order, footprints with several parts and holes) saved and read back; distinct = sizes, selected features, data",
    assumptions=["algorithm and feature labels can be part of a file name"],
    required_events=["cell", "summary_cell", "footprint_with_hole", "split_footprint", "simple_footprint", "no_footprint", "large"],
)
