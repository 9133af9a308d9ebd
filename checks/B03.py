"""B03: metadata is a faithful image of the table: every row, column and cell, in order."""

import csv
import io
import os
from pathlib import Path

import numpy as np
import pandas as pd

from monitor.harness import Ctx, Family, main

from instancespace.data.metadata import Metadata, from_csv_file
from instancespace.data.options import InstanceSpaceOptions
from instancespace.instance_space import InstanceSpace, instance_space_from_files

SCR = Path(os.environ["ISA_SCRATCH"])


def cased(rng, s):  # noqa: ANN001, ANN201
    return "".join(c.upper() if rng.random() < 0.3 else c for c in s)


def label(rng, i, style):  # noqa: ANN001, ANN201
    if style == "int":
        return str(i + 1)
    if style == "zero":
        return f"{i:05d}"
    if style == "float":
        return f"{i}.50"
    if style == "odd":
        base = ["NA", "nan", "null", "True", "1e5", "x,y", 'say "hi"', "naïve", " padded ", "line\nbreak", "None", "-", "инст", "0x10", "a#b", "#7", "1,5", "it's", "a;b", "\ttab"]
        return base[i % len(base)] + ("" if i < len(base) else str(i))
    return f"inst_{i}_{rng.integers(100)}"


def cell(rng, style):  # noqa: ANN001, ANN201
    """(text in the file, value it denotes)."""
    r = rng.random()
    if style == "int":
        v = int(rng.integers(-1000, 1000))
        return str(v), float(v)
    if r < 0.05:
        return str(rng.choice(["", "NaN", "nan", "NA"])), np.nan
    if r < 0.07 and style == "wide":  # e.g. a run that did not finish
        t = str(rng.choice(["inf", "-inf"]))
        return t, float(t)
    if style == "wide":
        v = float(rng.normal()) * 10.0 ** int(rng.integers(-12, 12))
        return repr(v), v
    v = round(float(rng.normal()) * 100, int(rng.integers(0, 6)))
    return repr(v), v


def fidelity(ctx: Ctx) -> None:
    rng = ctx.rng
    n = int(rng.choice([1, 2, 3, 10, 40]))
    nf, na = int(rng.integers(1, 7)), int(rng.integers(1, 6))
    if rng.random() < 0.04:
        n, nf, na = int(rng.integers(100, 500)), int(rng.integers(10, 40)), int(rng.integers(8, 15))
        ctx.event("large_table")
    lstyle = str(rng.choice(["int", "zero", "float", "odd", "plain"]))
    sstyle = str(rng.choice(["plain", "plain", "int", "zero", "float", "odd"]))
    cols = [("inst", cased(rng, "instances"), "label")]
    if rng.random() < 0.5:
        cols.append(("src", cased(rng, "source"), "src"))
    for j in range(nf):
        cols.append(("feat", cased(rng, "feature_") + f"F{j}" + str(rng.choice(["", "_x", "algo_", "_source", " (mm)", "#1", ",b", "é", ".1"])), str(rng.choice(["int", "dec", "wide"]))))
    for j in range(na):
        cols.append(("algo", cased(rng, "algo_") + f"A{j}" + str(rng.choice(["", "_y", "feature_", "instances", " 2", "#1", ",b", "é", ".1"])), str(rng.choice(["int", "dec", "wide"]))))
    if rng.random() < 0.5:
        for j in range(int(rng.integers(1, 3))):
            cols.append(("junk", str(rng.choice(["comment", "my_feature_", "xalgo_", "feature", "algo", "id"])) + str(j), "junk"))
    if rng.random() < 0.3:
        near = ["sources", "Source2", "instance", "instances_", "inst", "features", "algos", "algorithm_x", "feat_y", "alg_z", " source"]
        cols += [("junk", str(x), "junk") for x in rng.choice(near, size=2, replace=False)]
    order = rng.permutation(len(cols))
    if rng.random() < 0.3:
        order = np.arange(len(cols))
    cols = [cols[int(i)] for i in order]
    rows, vals = [], []
    sources = []
    for i in range(n):
        row, val = [], []
        for kind, _name, style in cols:
            if kind == "inst":
                t = label(rng, i, lstyle)
                v = t
            elif kind == "src":
                t = {"plain": f"src{rng.integers(3)}"}.get(sstyle) or label(rng, int(rng.integers(4)), sstyle)
                v = t
            elif kind == "junk":
                t = str(rng.choice(["a", "1", ""]))
                v = None
            else:
                t, v = cell(rng, style)
            row.append(t)
            val.append(v)
        rows.append(row)
        vals.append(val)
    if n > 2 and rng.random() < 0.2:  # a row may be there more than once
        for i in rng.integers(0, n, size=max(1, n // 4)):
            j = int(rng.integers(n))
            rows[int(i)], vals[int(i)] = list(rows[j]), list(vals[j])
        ctx.event("repeated_row")
    buf = io.StringIO()
    w = csv.writer(buf, lineterminator=str(rng.choice(["\n", "\r\n"])))
    w.writerow([c[1] for c in cols])
    w.writerows(rows)
    p = SCR / f"t{os.getpid()}.csv"
    p.write_bytes((b"\xef\xbb\xbf" if rng.random() < 0.15 else b"") + buf.getvalue().encode("utf-8"))
    m = from_csv_file(p if rng.random() < 0.5 else str(p))
    if not ctx.require(m is not None, "valid-rejected", f"valid table rejected: {buf.getvalue()[:400]!r}"):
        return
    feats = [j for j, c in enumerate(cols) if c[0] == "feat"]
    algos = [j for j, c in enumerate(cols) if c[0] == "algo"]
    ji = next(j for j, c in enumerate(cols) if c[0] == "inst")

    def view(what: str, m: Metadata) -> None:
        ctx.require(m.feature_names == [cols[j][1] for j in feats], "feature-names", f"{what}: {m.feature_names}")
        ctx.require(m.algorithm_names == [cols[j][1] for j in algos], "algorithm-names", f"{what}: {m.algorithm_names}")
        ctx.require(isinstance(m.instance_labels, pd.Series), "labels-type", f"{what}: {type(m.instance_labels)}")
        want = [v[ji] for v in vals]
        got = list(m.instance_labels)
        ctx.event("label_compared", len(want))
        ctx.require(got == want, f"labels-{lstyle}", f"{what}: labels {got[:8]} expected {want[:8]}")
        js = next((j for j, c in enumerate(cols) if c[0] == "src"), None)
        if js is None:
            ctx.require(m.instance_sources is None, "sources", f"{what}: unexpected sources {m.instance_sources}")
        else:
            ctx.event("source_compared", n)
            ctx.require(m.instance_sources is not None and list(m.instance_sources) == [v[js] for v in vals],
                        "sources" if sstyle == "plain" else f"sources-{sstyle}", f"{what}: {m.instance_sources}")
        for nm, mat, js_ in (("features", m.features, feats), ("algorithms", m.algorithms, algos)):
            want_m = np.array([[v[j] for j in js_] for v in vals], dtype=float)
            ctx.require(mat.dtype == np.float64, "not-double", f"{what}: {nm} has dtype {mat.dtype}")
            if ctx.require(mat.shape == want_m.shape, "shape", f"{what}: {nm} {mat.shape} vs {want_m.shape}"):
                ctx.event("cell_compared", want_m.size)
                ok = np.allclose(mat.astype(float), want_m, rtol=1e-11, atol=0, equal_nan=True)
                ctx.require(ok, "cells", f"{what}: {nm} differ")

    view("from_csv_file", m)
    if rng.random() < 0.3:
        q = SCR / f"t{os.getpid()}.json"
        q.write_text("{}")
        sp = instance_space_from_files(p, q)
        if ctx.require(sp is not None, "space-none", "instance space not built from valid files"):
            view("instance_space_from_files", sp.metadata)
    df = pd.DataFrame({c[1]: [v[j] for v in vals] for j, c in enumerate(cols)}, dtype=object)
    for j in feats + algos:
        df[cols[j][1]] = df[cols[j][1]].astype(float)
        if cols[j][2] == "int" and rng.random() < 0.5:
            df[cols[j][1]] = df[cols[j][1]].astype(np.int64)
    if lstyle == "int" and rng.random() < 0.7:  # a frame may hold the labels as numbers
        df[cols[ji][1]] = df[cols[ji][1]].astype(np.int64)
        ctx.event("numeric_labels")
    keep = df.copy(deep=True)
    idx = rng.random() < 0.5
    if idx:  # a frame that was filtered or re-ordered before use keeps its own index
        df.index = rng.permutation(len(df)) + 7
        keep.index = df.index
    view("from_data_frame", Metadata.from_data_frame(df))
    ctx.require(df.equals(keep), "frame-changed", "from_data_frame changed the caller's table")
    ctx.distinct(n, nf, na, lstyle, tuple(c[0] for c in cols))
    ctx.sample(buf.getvalue()[:500])


main(
    "B03",
    [Family("fidelity", fidelity, 900, 20000)],
    rule="random well-formed tables (1-500 rows, some repeated, shuffled column order, random header case, decoy columns, "
    "integer/decimal/scientific/missing cells, labels that look like numbers or missing values, quoting, BOM, "
    "CRLF); distinct = (rows, feature/algorithm counts, label style, column layout)",
    assumptions=["numbers compared to 1e-11 relative (pandas' default parser is not correctly rounded)"],
    required_events=["label_compared", "repeated_row", "large_table", "source_compared", "numeric_labels", "cell_compared"],
)
