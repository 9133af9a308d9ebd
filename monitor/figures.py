"""Watches figures being saved, and reads what they show."""

from __future__ import annotations

import contextlib
from pathlib import Path
from typing import Any

import numpy as np


def groups(ax: Any) -> list[dict[str, Any]]:
    """The sets of points in a graph, with their positions, values and colours."""
    out = []
    for c in ax.collections:
        c.update_scalarmappable()
        off = np.ma.filled(np.ma.asarray(c.get_offsets(), dtype=float), np.nan)
        arr = c.get_array()
        face = np.asarray(c.get_facecolors())
        out.append({
            "label": c.get_label(), "z": off, "value": None if arr is None else np.ma.filled(np.ma.asarray(arr, dtype=float), np.nan),
            "colour": face if len(face) == len(off) else np.repeat(face[:1], len(off), axis=0),
        })
    return out


def shapes(ax: Any) -> list[dict[str, Any]]:
    out = []
    for p in ax.patches:
        path = p.get_path()
        tr = p.get_patch_transform()
        out.append({"rings": [np.asarray(r) for r in tr.transform_path(path).to_polygons(closed_only=True)], "colour": np.asarray(p.get_facecolor())})
    return out


def covers(shape: dict[str, Any], pts: np.ndarray) -> np.ndarray:
    """Which points a drawn shape covers (as it is filled: where it winds around)."""
    wind = np.zeros(len(pts))
    for r in shape["rings"]:
        a, b = r[:-1], r[1:]
        for (x0, y0), (x1, y1) in zip(a, b):
            side = (x1 - x0) * (pts[:, 1] - y0) - (pts[:, 0] - x0) * (y1 - y0)
            wind += ((y0 <= pts[:, 1]) & (y1 > pts[:, 1]) & (side > 0)).astype(int)
            wind -= ((y0 > pts[:, 1]) & (y1 <= pts[:, 1]) & (side < 0)).astype(int)
    return wind != 0


def read(fig: Any) -> dict[str, Any]:
    ax = fig.axes[0]
    titles = [a.get_title() for a in fig.axes] + [fig.get_suptitle()]
    leg = ax.get_legend()
    return {
        "groups": groups(ax), "shapes": shapes(ax), "xlim": sorted(ax.get_xlim()), "ylim": sorted(ax.get_ylim()), "title": " ".join(titles),
        "legend": [t.get_text() for t in leg.get_texts()] if leg is not None else [],
    }


@contextlib.contextmanager
def watching(render: bool = True):  # noqa: ANN201
    """Record what every figure shows when it is saved (and, without render, spare the drawing of the picture)."""
    from matplotlib.figure import Figure

    seen: dict[str, list[dict[str, Any]]] = {}
    original = Figure.savefig

    def savefig(self: Any, fname: Any, *a: Any, **k: Any) -> Any:
        shown = read(self)
        name = Path(str(fname)).name
        seen.setdefault(name, []).append(shown)
        if render:
            return original(self, fname, *a, **k)
        Path(fname).write_bytes(b"not rendered")
        return None

    Figure.savefig = savefig
    try:
        yield seen
    finally:
        Figure.savefig = original
