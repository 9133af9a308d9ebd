"""K02: web colours follow the values."""

import os
import tempfile
from pathlib import Path

import numpy as np

from monitor import model as mm
from monitor.harness import Ctx, Family, main


def colours(ctx: Ctx, path: Path, cols: list[str], labels: list, values: np.ndarray, together: bool) -> None:
    if not ctx.require(path.is_file(), "file-missing", f"{path.name} was not written"):
        return
    head, rows = mm.read_table(path)
    v = np.asarray(values, dtype=float).reshape(len(labels), -1)
    ctx.require(head == ["Row", *cols], "columns", lambda: f"{path.name}: columns {head} instead of {cols}")
    if not ctx.require([r[0] for r in rows] == [str(x) for x in labels], "rows", lambda: f"{path.name}: rows {[r[0] for r in rows][:8]}"):
        return
    got = np.full(v.shape, np.nan)
    for i, r in enumerate(rows):
        for j, cell in enumerate(r[1:]):
            if np.isnan(v[i, j]):
                ctx.event("missing_cell")
                ctx.require(mm.cell_is(cell, None), "missing", lambda: f"{path.name}: the missing {r[0]!r}/{head[j + 1]} has colour {cell!r}")
            else:
                try:
                    got[i, j] = float(cell)
                except ValueError:
                    ctx.violation("colour", f"{path.name}: {r[0]!r}/{head[j + 1]} has colour {cell!r}")
                    return
    for j in range(v.shape[1]):
        col = v if together else v[:, j]
        lo, hi = np.nanmin(col), np.nanmax(col)
        for i in np.flatnonzero(~np.isnan(v[:, j])):
            c = got[i, j]
            if hi == lo:
                ctx.event("constant_cell")
                ctx.require(c == int(c) and 0 <= c <= 255, "colour", lambda: f"{path.name}: colour {c} where all values are the same")
                continue
            ctx.event("scaled_cell")
            want = 255 * (v[i, j] - lo) / (hi - lo)
            ctx.require(
                c == int(c) and 0 <= c <= 255 and abs(c - want) <= 1 + 1e-6,
                "colour", lambda: f"{path.name}: colour {c} for {v[i, j]} among [{lo}, {hi}] ({want:.2f} of 255)",
            )
            if v[i, j] in (lo, hi):
                ctx.event("extreme_cell")
                ctx.require(c == (0 if v[i, j] == lo else 255), "extreme", lambda: f"{path.name}: the {'smallest' if v[i, j] == lo else 'largest'} value has colour {c}")


def case(ctx: Ctx) -> None:
    rng = ctx.rng
    m = mm.model(rng, missing=ctx.family == "missing", big=ctx.index % 5 == 0, size=(int(rng.integers(200, 1500)), int(rng.integers(7, 30)), int(rng.integers(13, 25))) if ctx.index % 80 == 7 else None)
    ctx.event("large", int(ctx.index % 80 == 7))
    want = mm.clone(m)
    d = want.data
    labels = list(d.inst_labels)
    with tempfile.TemporaryDirectory(dir=os.environ.get("ISA_SCRATCH")) as tmp:
        out = Path(tmp)
        m.save_for_web(str(out) if ctx.index % 2 else out)
        x_raw = d.x_raw[:, want.feat_sel.idx]
        for name, cols, vals, together in (
            ("feature_raw_color.csv", d.feat_labels, x_raw, False),
            ("feature_process_color.csv", d.feat_labels, d.x, False),
            ("algorithm_raw_single_color.csv", d.algo_labels, d.y_raw, False),
            ("algorithm_process_single_color.csv", d.algo_labels, d.y, False),
            ("algorithm_raw_color.csv", d.algo_labels, d.y_raw, True),
            ("algorithm_process_color.csv", d.algo_labels, d.y, True),
            ("good_algos_color.csv", ["NumGoodAlgos"], d.num_good_algos, True),
        ):
            colours(ctx, out / name, list(cols), labels, vals, together)
        head, rows = mm.read_table(out / "color_table.csv")
        table = np.array([[float(c) for c in r[-3:]] for r in rows])
        ctx.event("colour_table")
        ctx.require(head[-3:] == ["R", "G", "B"] and table.shape == (256, 3), "table", f"colour table has columns {head} and {len(rows)} rows")
        ctx.require(len({tuple(r) for r in table.tolist()}) > 200 and table.min() >= 0 and table.max() <= 255, "table", "the colour table is not 256 different colours")
    ctx.distinct(d.x.shape, d.y.shape, ctx.index)
    ctx.sample({"instances": len(d.x), "features": len(d.feat_labels), "algorithms": len(d.algo_labels)})


main(
    "K02",
    [Family("plain", case, 250, 5000), Family("missing", case, 250, 5000)],
    rule="random finished models, some with missing cells or constant columns, saved for the web and read back; distinct = sizes and data",
    assumptions=["a colour may be rounded or cut off to a whole number"],
    required_events=["missing_cell", "constant_cell", "scaled_cell", "extreme_cell", "colour_table"],
)
